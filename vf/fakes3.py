"""An S3 service in a local directory, put in place of boto3's client (spec: Store, Cache)."""
import contextlib
import os
import shutil
import signal
import time


def size(p):
    try:
        return os.path.getsize(p)
    except FileNotFoundError:
        return 0    # deleted meanwhile


class NotFound(Exception):
    pass


class FakeS3:
    page = 3          # list_objects_v2 pages (the real service: 1000), small so that paging matters

    def __init__(self, root, fault=None):
        self.root, self.fault = root, fault

    def _p(self, bucket, key):
        return os.path.join(self.root, bucket, key)

    def upload_file(self, filename, bucket, key, **kw):
        if self.fault:
            self.fault(key)
        p = self._p(bucket, key)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = f"{p}.{os.getpid()}.part~"
        shutil.copyfile(filename, tmp)
        os.replace(tmp, p)

    def _need(self, bucket, key):
        import botocore.exceptions

        p = self._p(bucket, key)
        if not os.path.isfile(p):
            raise botocore.exceptions.ClientError(
                {"Error": {"Code": "404", "Message": "Not Found"}, "ResponseMetadata": {"HTTPStatusCode": 404}}, "HeadObject")
        return p

    def download_file(self, bucket, key, filename, **kw):
        p = self._need(bucket, key)
        tmp = f"{filename}.{os.getpid()}.part~"
        shutil.copyfile(p, tmp)
        os.replace(tmp, filename)

    def download_fileobj(self, bucket, key, fileobj, **kw):
        with open(self._need(bucket, key), "rb") as f:
            fileobj.write(f.read())

    def head_object(self, Bucket, Key, **kw):
        return {"ContentLength": os.path.getsize(self._need(Bucket, Key))}

    def copy(self, source, bucket, key, **kw):
        p = self._need(source["Bucket"], source["Key"])
        q = self._p(bucket, key)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)

    def delete_object(self, Bucket, Key, **kw):
        with contextlib.suppress(FileNotFoundError):
            os.remove(self._p(Bucket, Key))

    def _keys(self, bucket, prefix):
        base = os.path.join(self.root, bucket)
        out = []
        for d, _, fs in os.walk(base):
            for f in fs:
                k = os.path.relpath(os.path.join(d, f), base)
                if k.startswith(prefix) and not k.endswith("~"):
                    out.append(k)
        return sorted(out)

    def list_objects_v2(self, Bucket, Prefix="", Delimiter=None, ContinuationToken=None, StartAfter=None, MaxKeys=None, **kw):
        keys, common = [], set()
        for k in self._keys(Bucket, Prefix):
            rest = k[len(Prefix):]
            if Delimiter and Delimiter in rest:
                common.add(Prefix + rest.split(Delimiter)[0] + Delimiter)
            else:
                keys.append(k)
        after = ContinuationToken or StartAfter
        if after:
            keys = [k for k in keys if k > after]
        n = min(MaxKeys or self.page, self.page)
        part = keys[:n]
        res = {"KeyCount": len(part) + len(common), "IsTruncated": len(keys) > n, "Prefix": Prefix}
        if part:
            res["Contents"] = [{"Key": k, "Size": size(self._p(Bucket, k))} for k in part]
        if common:
            res["CommonPrefixes"] = [{"Prefix": c} for c in sorted(common)]
        if len(keys) > n:
            res["NextContinuationToken"] = part[-1]
        return res

    def get_paginator(self, name):
        assert name == "list_objects_v2"
        s3 = self

        class P:
            def paginate(self, **kw):
                tok = None
                while True:
                    r = s3.list_objects_v2(**kw, ContinuationToken=tok)
                    yield r
                    tok = r.get("NextContinuationToken")
                    if tok is None:
                        return

        return P()

    def delete_objects(self, Bucket, Delete, **kw):
        for o in Delete["Objects"]:
            self.delete_object(Bucket, o["Key"])
        return {}


def install(root, fault=None):
    """Every boto3 session of this process (and of its forks) talks to the directory root."""
    import boto3

    os.makedirs(root, exist_ok=True)
    os.environ["DISABLE_S5CMD"] = "1"

    def client(self, service, *a, **kw):
        assert service == "s3"
        return FakeS3(root, fault)

    boto3.Session.client = client
    boto3.session.Session.client = client
