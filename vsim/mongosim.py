"""A stub of the part of pymongo's client that a document store needs, over shared collections."""
from __future__ import annotations

import copy

from bson.binary import Binary
from pymongo.errors import AutoReconnect, DuplicateKeyError

from . import kernel


class Server:
    def __init__(self, sim):
        self.sim = sim
        self.colls = {}
        self.fault_plan = None
        self.ops = 0


class Client:
    def __init__(self, server):
        self.server = server
        self.closed = False

    def __getitem__(self, name):
        return Database(self, name)

    def close(self):
        self.closed = True


class Database:
    def __init__(self, client, name):
        self.client, self.name = client, name

    def __getitem__(self, coll):
        return Collection(self.client, (self.name, coll))

    def get_collection(self, coll, **k):
        return self[coll]


class _R:
    def __init__(self, **k):
        self.__dict__.update(k)


def _key(v):
    # BSON ordering: null/missing first, then numbers
    return (0, 0) if v is None else (1, v)


def _match(doc, cond):
    for k, c in (cond or {}).items():
        if k == "$and":
            if not all(_match(doc, x) for x in c):
                return False
            continue
        if k == "$or":
            if not any(_match(doc, x) for x in c):
                return False
            continue
        v = doc.get(k)
        if isinstance(c, dict) and any(x.startswith("$") for x in c):
            for op, arg in c.items():
                if op == "$lte":
                    ok = v is not None and v <= arg
                elif op == "$lt":
                    ok = v is not None and v < arg
                elif op == "$gte":
                    ok = v is not None and v >= arg
                elif op == "$gt":
                    ok = v is not None and v > arg
                elif op == "$ne":
                    ok = v != arg
                elif op == "$eq":
                    ok = v == arg
                elif op == "$in":
                    ok = v in arg
                elif op == "$nin":
                    ok = v not in arg
                elif op == "$exists":
                    ok = (k in doc) == bool(arg)
                else:
                    raise NotImplementedError(op)
                if not ok:
                    return False
        elif v != c:
            return False
    return True


class Collection:
    def __init__(self, client, key):
        self.client = client
        self.key = key

    def _enter(self, op, write):
        srv = self.client.server
        srv.sim.check_alive()
        srv.sim.point("mongo")
        srv.ops += 1
        f = srv.fault_plan(op) if srv.fault_plan is not None else None
        if f == "before":
            srv.sim.fault("mongo_lost_request")
            raise AutoReconnect("connection closed")
        return srv.colls.setdefault(self.key, {}), f

    def _leave(self, f):
        srv = self.client.server
        if f == "after":
            srv.sim.fault("mongo_lost_reply")
            raise AutoReconnect("connection closed")
        srv.sim.point("mongo")

    def create_index(self, *a, **k):
        self._enter("create_index", True)

    def find_one(self, filter=None, projection=None, sort=None, **k):
        if filter is not None and not isinstance(filter, dict):
            filter = {"_id": filter}
        for d in self.find(filter, projection, sort=sort):
            return d
        return None

    def find(self, filter=None, projection=None, sort=None, limit=0, **k):
        c, f = self._enter("find", False)
        docs = [copy.deepcopy(d) for d in c.values() if _match(d, filter)]
        for field, direction in reversed(list(sort or ())):
            docs.sort(key=lambda d: _key(d.get(field)), reverse=direction < 0)
        if limit:
            docs = docs[:limit]
        if projection is not None:
            keep = set(projection if not isinstance(projection, dict) else
                       [a for a, b in projection.items() if b]) | {"_id"}
            docs = [{a: b for a, b in d.items() if a in keep} for d in docs]
        self._leave(f)
        return iter(docs)

    def count_documents(self, filter=None, **k):
        return sum(1 for _ in self.find(filter))

    def insert_one(self, doc, **k):
        c, f = self._enter("insert", True)
        if doc["_id"] in c:
            raise DuplicateKeyError(f"E11000 duplicate key error: {doc['_id']}", 11000)
        c[doc["_id"]] = copy.deepcopy(doc)
        self._leave(f)
        return _R(inserted_id=doc["_id"], acknowledged=True)

    def _apply(self, d, update):
        for op, ch in update.items():
            if op == "$set":
                d.update(copy.deepcopy(ch))
            elif op == "$unset":
                for x in ch:
                    d.pop(x, None)
            else:
                raise NotImplementedError(op)

    def update_one(self, filter, update, upsert=False, **k):
        c, f = self._enter("update", True)
        m = 0
        for d in c.values():
            if _match(d, filter):
                self._apply(d, update)
                m = 1
                break
        if not m and upsert:
            d = dict(filter)
            self._apply(d, update)
            c[d["_id"]] = d
        self._leave(f)
        return _R(matched_count=m, modified_count=m, upserted_id=None, acknowledged=True)

    def replace_one(self, filter, doc, upsert=False, **k):
        c, f = self._enter("update", True)
        m = 0
        for i, d in list(c.items()):
            if _match(d, filter):
                c[i] = {**copy.deepcopy(doc), "_id": i}
                m = 1
                break
        if not m and upsert:
            c[filter["_id"]] = {**copy.deepcopy(doc), "_id": filter["_id"]}
        self._leave(f)
        return _R(matched_count=m, modified_count=m, acknowledged=True)

    def find_one_and_update(self, filter, update, **k):
        c, f = self._enter("update", True)
        for d in c.values():
            if _match(d, filter):
                old = copy.deepcopy(d)
                self._apply(d, update)
                self._leave(f)
                return old
        self._leave(f)
        return None

    def delete_one(self, filter, **k):
        c, f = self._enter("delete", True)
        n = 0
        for i, d in list(c.items()):
            if _match(d, filter):
                del c[i]
                n = 1
                break
        self._leave(f)
        return _R(deleted_count=n, acknowledged=True)

    def delete_many(self, filter, **k):
        c, f = self._enter("delete", True)
        n = 0
        for i, d in list(c.items()):
            if _match(d, filter):
                del c[i]
                n += 1
        self._leave(f)
        return _R(deleted_count=n, acknowledged=True)

    def __repr__(self):
        return f"Collection{self.key}"
