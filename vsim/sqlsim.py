"""Real SQLAlchemy on real in-memory SQLite; a transaction is one atomic step.

Preemption happens before a connection is taken, after it is returned and between statements as long
as no transaction was begun (SQLite begins one with the first write); faults strike before
a statement (nothing applied) or at commit (applied, acknowledgement lost)."""
from __future__ import annotations

import sqlite3

import sqlalchemy
from sqlalchemy import event
from sqlalchemy.exc import OperationalError
from sqlalchemy.pool import StaticPool

from . import kernel


_create_engine = sqlalchemy.create_engine


def create_engine(url, *a, **k):
    """sim://NAME is the database NAME of the current simulation."""
    if isinstance(url, str) and url.startswith("sim://"):
        return kernel.CURRENT.world.sql(url[6:]).engine()
    return _create_engine(url, *a, **k)


sqlalchemy.create_engine = create_engine      # before the code under test is imported


class Database:
    """A durable database that several engines (processes) can open."""

    def __init__(self, sim):
        self.sim = sim
        self.conn = sqlite3.connect(":memory:", check_same_thread=False)
        self.fault_plan = None
        self.ops = 0
        self.pending_after = False

    def close(self):
        self.conn.close()

    def raw_states(self, table="asyncz_store"):
        try:
            return {a: bytes(b) for a, b in self.conn.execute(f"select id, state from {table}")}
        except sqlite3.OperationalError:
            return {}

    def all_rows(self):
        out = []
        for (t,) in self.conn.execute("select name from sqlite_master where type = 'table'").fetchall():
            out += self.conn.execute(f"select * from {t}").fetchall()
        return out

    def put_state(self, tid, data, table="asyncz_store"):
        self.conn.execute(f"update {table} set state = ? where id = ?", (data, tid))
        self.conn.commit()

    def forge(self, tid, data, src, table="asyncz_store"):
        self.conn.execute(f"insert into {table} select ?, next_run_time, ? from {table} where id = ?", (tid, data, src))
        self.conn.commit()

    def engine(self):
        db = self
        sim = self.sim
        eng = _create_engine("sqlite://", creator=lambda: _Unclosable(db.conn), poolclass=StaticPool)

        @event.listens_for(eng, "checkout")
        def _out(dbapi, rec, proxy):
            if kernel.CURRENT is sim:
                sim.check_alive()
                sim.point("sql")
            sim.atomic_depth += 1

        @event.listens_for(eng, "checkin")
        def _in(dbapi, rec):
            sim.atomic_depth = max(0, sim.atomic_depth - 1)

        @event.listens_for(eng, "before_cursor_execute")
        def _exec(conn, cursor, statement, parameters, context, executemany):
            db.ops += 1
            if kernel.CURRENT is sim and not db.conn.in_transaction:
                depth, sim.atomic_depth = sim.atomic_depth, max(0, sim.atomic_depth - 1)
                try:
                    sim.point("sql")
                finally:
                    sim.atomic_depth = depth
            if db.fault_plan is None or kernel.CURRENT is not sim:
                return
            f = db.fault_plan(statement)
            if f == "before":
                sim.fault("sql_error")
                raise OperationalError(statement, {}, sqlite3.OperationalError("database is locked"))
            if f == "after":
                db.pending_after = True

        @event.listens_for(eng, "commit")
        def _commit(conn):
            if db.pending_after:
                db.pending_after = False
                conn.connection.dbapi_connection.real.commit()
                sim.fault("sql_lost_ack")
                raise OperationalError("COMMIT", {}, sqlite3.OperationalError("disk I/O error"))

        @event.listens_for(eng, "rollback")
        def _rb(conn):
            db.pending_after = False
        return eng


class _Unclosable:
    """dbapi connection proxy that survives engine.dispose()."""

    def __init__(self, real):
        self.real = real

    def __getattr__(self, n):
        return getattr(self.real, n)

    def close(self):
        self.real.rollback()
