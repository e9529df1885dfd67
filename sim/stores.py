"""Simulated Redis and MongoDB servers and a Zarr store with fault points."""

from collections.abc import MutableMapping

import bson
import pymongo.errors
import redis.exceptions

from .fs import FSX, StubLimit


class Result:
    """What the methods of a MongoDB collection return."""

    def __init__(self, **kw):
        self.__dict__.update(kw, acknowledged=True)


class FakeRedis:
    """The subset of redis.Redis a key/value client needs."""

    def __init__(self):
        self.kv = {}

    @staticmethod
    def _b(v):
        if isinstance(v, bytes):
            return v
        if isinstance(v, (bytearray, memoryview)):
            return bytes(v)
        if isinstance(v, str):
            return v.encode()
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return repr(v).encode()
        raise redis.exceptions.DataError(f"Invalid input of type: {type(v).__name__}")

    def _pt(self, kind, key):
        f = FSX.point(kind, "redis:" + str(key))
        if f is not None:
            raise redis.exceptions.ConnectionError("simulated connection loss")

    def get(self, name):
        self._pt("kv_get", name)
        return self.kv.get(self._b(name))

    def set(self, name, value, ex=None, px=None, nx=False, xx=False, keepttl=False, get=False,
            exat=None, pxat=None):
        value = self._b(value)
        self._pt("kv_set", name)
        k = self._b(name)
        old = self.kv.get(k)
        if (nx and old is not None) or (xx and old is None):
            return old if get else None
        FSX.log_writes.append(("set", str(name)))
        self.kv[k] = value
        return old if get else True

    def setnx(self, name, value):
        return bool(self.set(name, value, nx=True))

    def getset(self, name, value):
        return self.set(name, value, get=True)

    def mget(self, keys, *args):
        keys = [keys] if isinstance(keys, (str, bytes)) else list(keys)
        return [self.get(k) for k in keys + list(args)]

    def mset(self, mapping):
        for k, v in mapping.items():
            self.set(k, v)
        return True

    def exists(self, *names):
        n = 0
        for name in names:
            self._pt("kv_get", name)
            n += self._b(name) in self.kv
        return n

    def strlen(self, name):
        self._pt("kv_get", name)
        return len(self.kv.get(self._b(name), b""))

    def delete(self, *names):
        n = 0
        for name in names:
            self._pt("kv_set", name)
            FSX.log_writes.append(("delete", str(name)))
            n += self.kv.pop(self._b(name), None) is not None
        return n

    def __getitem__(self, name):
        v = self.get(name)
        if v is None:
            raise KeyError(name)
        return v

    def __setitem__(self, name, value):
        self.set(name, value)

    def __delitem__(self, name):
        self.delete(name)

    def __contains__(self, name):
        return bool(self.exists(name))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise StubLimit(f"redis client method {name} is not simulated")


class FakeMongo:
    """The subset of pymongo.collection.Collection a document store needs.

    Documents are kept BSON encoded, so they are detached from caller objects
    and restricted to what BSON can represent.
    """

    def __init__(self):
        self.docs = []
        self.next_id = 1

    def _pt(self, kind, what):
        f = FSX.point(kind, "mongo:" + what)
        if f is not None:
            raise pymongo.errors.AutoReconnect("simulated connection loss")

    def _find(self, flt):
        for i, blob in enumerate(self.docs):
            d = bson.decode(blob)
            if all(k in d and d[k] == v for k, v in (flt or {}).items()):
                return i, d
        return None, None

    def _flt(self, flt):
        return flt if flt is None or isinstance(flt, dict) else {"_id": flt}

    def find_one(self, filter=None, projection=None, *args, **kwargs):
        self._pt("kv_get", "find_one")
        d = self._find(self._flt(filter))[1]
        return d if d is None else self._project(d, projection)

    def find(self, filter=None, projection=None, *args, **kwargs):
        self._pt("kv_get", "find")
        ds = [bson.decode(b) for b in self.docs]
        return iter([self._project(d, projection) for d in ds
                     if all(k in d and d[k] == v for k, v in (filter or {}).items())])

    @staticmethod
    def _project(d, p):
        if not p:
            return d
        if not isinstance(p, dict):
            p = {k: 1 for k in p}
        keep_id = p.get("_id", 1)
        rest = {k: v for k, v in p.items() if k != "_id"}
        if any(rest.values()):
            return {k: v for k, v in d.items() if rest.get(k) or (k == "_id" and keep_id)}
        return {k: v for k, v in d.items() if k not in rest and (k != "_id" or keep_id)}

    def replace_one(self, filter, replacement, upsert=False, *args, **kwargs):
        blob = bson.encode(replacement)
        self._pt("kv_set", "replace_one")
        FSX.log_writes.append(("replace_one", str(filter)))
        i, old = self._find(filter)
        if i is None:
            if upsert:
                self._insert(replacement)
            return Result(matched_count=0, modified_count=0)
        new = dict(bson.decode(blob))
        new["_id"] = old["_id"]
        self.docs[i] = bson.encode(new)
        return Result(matched_count=1, modified_count=1)

    def find_one_and_replace(self, filter, replacement, projection=None, sort=None, upsert=False,
                             return_document=False, **kwargs):
        old = self._find(filter)[1]
        self.replace_one(filter, replacement, upsert)
        return self._find(filter)[1] if return_document else old

    def _insert(self, doc):
        new = {"_id": self.next_id, **doc}
        self.next_id += 1
        self.docs.append(bson.encode(new))
        return new["_id"]

    def insert_one(self, document, *args, **kwargs):
        bson.encode(document)
        self._pt("kv_set", "insert_one")
        FSX.log_writes.append(("insert_one", ""))
        document["_id"] = self._insert(document)
        return Result(inserted_id=document["_id"])

    def update_one(self, filter, update, upsert=False, *args, **kwargs):
        for k in update:
            if k not in ("$set", "$setOnInsert"):
                raise StubLimit(f"update operator {k} is not simulated")
        bson.encode(update)
        self._pt("kv_set", "update_one")
        FSX.log_writes.append(("update_one", str(filter)))
        i, old = self._find(filter)
        new = {**(old or filter), **update.get("$set", {})}
        if i is None:
            if upsert:
                self._insert({**new, **update.get("$setOnInsert", {})})
            return Result(matched_count=0, modified_count=0)
        self.docs[i] = bson.encode(new)
        return Result(matched_count=1, modified_count=1)

    def delete_one(self, filter, *args, **kwargs):
        self._pt("kv_set", "delete_one")
        FSX.log_writes.append(("delete_one", str(filter)))
        i, _ = self._find(filter)
        if i is not None:
            del self.docs[i]
        return Result(deleted_count=int(i is not None))

    def count_documents(self, filter, *args, **kwargs):
        return len(list(self.find(filter)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise StubLimit(f"collection method {name} is not simulated")


class SimZarrStore(MutableMapping):
    """In-memory Zarr key/value store with fault points."""

    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        f = FSX.point("kv_get", "zarr:" + k)
        if f is not None:
            raise OSError(5, "simulated store read error")
        return self.d[k]

    def __setitem__(self, k, v):
        f = FSX.point("kv_set", "zarr:" + k)
        if f is not None:
            raise OSError(5, "simulated store write error")
        FSX.log_writes.append(("set", k))
        self.d[k] = bytes(v) if not isinstance(v, bytes) else v

    def __delitem__(self, k):
        f = FSX.point("kv_set", "zarr:" + k)
        if f is not None:
            raise OSError(5, "simulated store write error")
        FSX.log_writes.append(("delete", k))
        del self.d[k]

    def __iter__(self):
        return iter(sorted(self.d))

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d
