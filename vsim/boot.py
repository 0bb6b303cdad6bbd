"""Installs every seam, then imports the code under test from /repo."""
import logging
import os
import sys

from . import kernel, patches

REPO = os.environ.get("ASYNCZ_REPO", "/repo")
_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    os.environ.pop("ASYNCZ_STORE_ENCRYPTION_KEY", None)
    patches.install()
    from . import fs
    fs.install()
    from . import procpool
    procpool.install()
    sys.path.insert(0, REPO)
    import asyncz
    assert os.path.realpath(asyncz.__file__).startswith(os.path.realpath(REPO) + "/"), asyncz.__file__
    import asyncz.schedulers  # noqa
    import asyncz.schedulers.asyncio  # noqa
    import asyncz.executors.asyncio, asyncz.executors.debug, asyncz.executors.pool  # noqa
    import asyncz.executors.process_pool  # noqa
    import asyncz.stores.memory, asyncz.stores.file, asyncz.stores.redis  # noqa
    import asyncz.stores.mongo, asyncz.stores.sqlalchemy  # noqa
    import asyncz.triggers, asyncz.triggers.shutdown  # noqa
    import asyncz.tasks  # noqa
    import zoneinfo  # noqa
    logging.disable(logging.CRITICAL)
    patches.enable_lines([os.path.join(os.path.realpath(REPO), "asyncz") + "/"])
