"""Install the seams, then import the library from the working tree."""

import os
import random
import sys
import uuid
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")

_uuid_rng = random.Random(0)


def _uuid4():
    return uuid.UUID(int=_uuid_rng.getrandbits(128), version=4)


def reseed_uuid(seed):
    _uuid_rng.seed(seed)


_booted = False


def boot():
    global _booted
    if _booted:
        return
    _booted = True
    # Heavy third-party imports first, with the real primitives.
    import bson  # noqa: F401
    import numcodecs  # noqa: F401
    import numpy  # noqa: F401
    import pymongo  # noqa: F401
    import redis  # noqa: F401
    import zarr  # noqa: F401

    from . import fs, sched

    sys.path.insert(0, REPO)
    fs.install()
    sched.install()
    uuid.uuid4 = _uuid4
    warnings.simplefilter("ignore")

    import synced_collections  # noqa: F401
    import synced_collections.backends.collection_json  # noqa: F401
    import synced_collections.backends.collection_mongodb  # noqa: F401
    import synced_collections.backends.collection_redis  # noqa: F401
    import synced_collections.backends.collection_zarr  # noqa: F401

    libdir = os.path.dirname(os.path.abspath(synced_collections.__file__)) + "/"
    want = os.path.realpath(REPO) + "/synced_collections/"
    if os.path.realpath(libdir) + "/" != want:
        raise RuntimeError(f"library imported from {libdir}, expected {want}")
    sched.install_lines(libdir)


def families():
    from synced_collections.backends import collection_json as j
    from synced_collections.backends import collection_mongodb as m
    from synced_collections.backends import collection_redis as r
    from synced_collections.backends import collection_zarr as z

    return {
        "json": (j.JSONDict, j.JSONList),
        "json_attr": (j.JSONAttrDict, j.JSONAttrList),
        "bjson": (j.BufferedJSONDict, j.BufferedJSONList),
        "bjson_attr": (j.BufferedJSONAttrDict, j.BufferedJSONAttrList),
        "mjson": (j.MemoryBufferedJSONDict, j.MemoryBufferedJSONList),
        "mjson_attr": (j.MemoryBufferedJSONAttrDict, j.MemoryBufferedJSONAttrList),
        "redis": (r.RedisDict, r.RedisList),
        "mongo": (m.MongoDBDict, m.MongoDBList),
        "zarr": (z.ZarrDict, z.ZarrList),
    }


JSON_FAMS = ["json", "json_attr", "bjson", "bjson_attr", "mjson", "mjson_attr"]
BUF_FAMS = ["bjson", "bjson_attr", "mjson", "mjson_attr"]
KV_FAMS = ["redis", "mongo", "zarr"]
ALL_FAMS = JSON_FAMS + KV_FAMS
