"""A simulated Zenodo behind `requests.get` and `wget.download`.

The real zenodo_get runs on top; every request is one numbered event at which
a fault may strike.  `wget.download` is modelled after the real one: a
temporary file in the current directory, renamed to a free name when done.
"""
import hashlib
import io
import json
import os
import shutil
import zipfile

from dst.seams import HarnessError, SimInterrupt

KINDS = {"resolve": ["timeout", "refused", "http"],
         "meta": ["timeout", "refused", "http", "badjson", "nofiles",
                  "wrongsum", "nokey"],
         "download": ["refused", "drop", "cut", "corrupt", "drop", "stall",
                      "interrupt"]}


def gen(rng):
    step = rng.choice(["resolve", "meta", "download", "download", "download"])
    return {"step": step, "nth": rng.choice([0, 0, 0, 1]),
            "kind": rng.choice(KINDS[step]), "part": rng.random(),
            "sticky": rng.random() < .3}


def pack(members, deflate=True, damage=None):
    """Bytes of a zip archive; `damage` is a fault of the archive itself."""
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED if deflate
                         else zipfile.ZIP_STORED) as zout:
        for name, text in members:
            info = zipfile.ZipInfo(name, (2019, 8, 20, 14, 39, 42))
            info.compress_type = zout.compression
            info.external_attr = 0o644 << 16
            zout.writestr(info, text)
    data = out.getvalue()
    if damage is None:
        return data
    if damage[0] == "notzip":
        return b"This is not an archive. " * 10
    if damage[0] == "short":
        return data[:int(len(data) * (.1 + .85 * damage[1]))]
    # One wrong byte in the data of a member
    with zipfile.ZipFile(io.BytesIO(data)) as zin:
        infos = [i for i in zin.infolist() if i.compress_size]
        if not infos:
            return data
        info = infos[int(damage[1] * len(infos)) % len(infos)]
        pos = info.header_offset + 30 + len(info.filename) + (
            info.compress_size // 2)
    data = bytearray(data)
    data[pos] ^= 0x55
    return bytes(data)


def damaged(members, deflate, damage):
    """Names that cannot be extracted (None: the archive is unreadable)."""
    data = pack(members, deflate, damage)
    bad = set()
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as zin:
            for name, text in members:
                try:
                    if zin.read(name) != text.encode():
                        bad.add(name)
                except Exception:
                    bad.add(name)
    except Exception:
        return None
    return bad


class _Answer:
    def __init__(self, ok, url, body=None):
        self.ok, self.url, self.body = ok, url, body

    def json(self):
        return json.loads(self.body)


class Net:
    """Context manager: the network as the plan has it."""

    def __init__(self, fs, files, record="3373812", faults=()):
        self.fs, self.files, self.record = fs, files, record
        self.faults = [dict(f) for f in faults]
        self.seen = {}
        self.fired = {}
        self.asleep = 0.0

    def __enter__(self):
        import requests
        import time
        import wget
        import zenodo_get.zget as zget
        self.old = (requests.get, wget.download, time.sleep)
        if zget.requests is not requests or zget.wget is not wget:
            raise HarnessError("zenodo_get does not use requests and wget")
        requests.get, wget.download = self.get, self.download
        zget.abort_signal, zget.abort_counter = False, 0
        time.sleep = self.sleep
        return self

    def __exit__(self, *exc):
        import requests
        import time
        import wget
        requests.get, wget.download, time.sleep = self.old
        return False

    def sleep(self, seconds):
        self.asleep += seconds

    def fault(self, step):
        nth = self.seen.get(step, 0)
        self.seen[step] = nth + 1
        for fault in self.faults:
            if fault["step"] == step and (fault["nth"] == nth
                                          or fault["sticky"]):
                key = "net:" + step + ":" + fault["kind"]
                self.fired[key] = self.fired.get(key, 0) + 1
                return fault
        return None

    def get(self, url, params=None, timeout=None, **kwargs):
        import requests
        meta = url.startswith("https://zenodo.org/api/records/")
        if not meta and not url.startswith("https://doi.org/"):
            raise HarnessError("unexpected request " + url)
        fault = self.fault("meta" if meta else "resolve")
        kind = fault and fault["kind"]
        if kind == "timeout":
            raise requests.exceptions.ConnectTimeout("simulated " + url)
        if kind == "refused":
            raise requests.exceptions.ConnectionError("simulated " + url)
        if kind == "http":
            return _Answer(False, url, "{}")
        if not meta:
            return _Answer(True, "https://zenodo.org/records/" + self.record)
        files = []
        for name, data in self.files:
            total = hashlib.md5(data).hexdigest()
            if kind == "wrongsum":
                total = hashlib.md5(data + b"x").hexdigest()
            files.append({"key": name, "size": len(data),
                          "checksum": "md5:" + total})
        body = json.dumps({
            "files": [] if kind == "nofiles" else files, "metadata": {
                "title": "DMSP SSJ Boundaries", "keywords": ["aurora"],
                "publication_date": "2019-08-20",
                "doi": "10.5281/zenodo." + self.record}})
        if kind == "badjson":
            body = body[:len(body) // 2]
        if kind == "nokey":
            body = body.replace('"checksum"', '"digest"').replace(
                '"metadata"', '"about"')
        return _Answer(True, url, body)

    def download(self, url, out=None, bar=None):
        name = url.split("?")[0].split("/")[-1]
        data = dict(self.files).get(name)
        if data is None:
            raise HarnessError("unexpected download " + url)
        fault = self.fault("download")
        kind = fault and fault["kind"]
        if kind == "refused":
            raise OSError("simulated: connection refused")
        if kind == "interrupt":
            raise SimInterrupt("simulated: interrupt while downloading")
        if kind == "cut":
            data = data[:int(len(data) * fault["part"])]
        elif kind == "corrupt":
            data = bytearray(data)
            data[int(len(data) * fault["part"]) % len(data)] ^= 1
            data = bytes(data)
        elif kind == "stall":
            self.asleep += 3600.0
        stop = int(len(data) * fault["part"]) if kind == "drop" else None
        count = 0
        while os.path.exists("{:s}x{:d}.tmp".format(name, count)):
            count += 1
        temp = "{:s}x{:d}.tmp".format(name, count)
        with open(temp, "wb") as fout:
            for pos in range(0, len(data), 8192):
                chunk = data[pos:pos + 8192]
                if stop is not None and pos + len(chunk) > stop:
                    fout.write(chunk[:stop - pos])
                    raise OSError("simulated: connection reset")
                fout.write(chunk)
        if stop is not None:
            raise OSError("simulated: connection reset")
        dest, count = name, 1
        while os.path.exists(dest):
            root, ext = os.path.splitext(name)
            dest = "{:s} ({:d}){:s}".format(root, count, ext)
            count += 1
        shutil.move(temp, dest)
        return dest
