"""Power-cut model: rebuild what survives on disk from the operation journal.

Model (ext4 data=ordered, delayed allocation; no barriers but fsync):
 * namespace operations (create, rename, unlink, mkdir, rmdir) reach the disk in
   order; an fsync commits every namespace operation issued before it; any
   prefix not shorter than that may survive;
 * file data written since the file's last fsync survives as an arbitrary prefix
   of the writes, the last of which may be torn.
"""
import os
import pickle
import shutil


class Obj:
    def __init__(self, data=b""):
        self.durable = bytearray(data)
        self.pending = []

    def apply(self, ops):
        buf = bytearray(self.durable)
        for op in ops:
            if op[0] == "w":
                _, pos, data = op
                if len(buf) < pos:
                    buf.extend(b"\0" * (pos - len(buf)))
                buf[pos:pos + len(data)] = data
            else:
                n = op[1]
                if n < len(buf):
                    del buf[n:]
                else:
                    buf.extend(b"\0" * (n - len(buf)))
        return buf


def snapshot(root):
    files, dirs = {}, []
    for d, ds, fs in os.walk(root):
        for x in ds:
            dirs.append(os.path.join(d, x))
        for x in fs:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                files[p] = (os.stat(p).st_ino, f.read())
    return files, dirs


def read_journal(path):
    recs = []
    with open(path, "rb") as f:
        data = f.read()
    i = 0
    while i + 8 <= len(data):
        n = int.from_bytes(data[i:i + 8], "little")
        if i + 8 + n > len(data):
            break
        recs.append(pickle.loads(data[i + 8:i + 8 + n]))
        i += 8 + n
    return recs


def power_cut(root, before, journal, rng):
    """Replace root's contents by a state that a power cut could leave."""
    files, dirs = before
    base = {p: Obj(data) for p, (_, data) in files.items()}
    byino = {ino: base[p] for p, (ino, _) in files.items()}
    live = dict(base)
    meta, committed = [], 0
    for r in journal:
        k = r[0]
        if k == "open":
            _, path, ino, trunc, existed = r
            if not existed:
                o = Obj()
                byino[ino] = o
                live[path] = o
                meta.append(("create", path, o))
            else:
                o = byino.get(ino)
                if o is None:
                    o = byino[ino] = live.setdefault(path, Obj())
                if trunc:
                    o.pending.append(("t", 0))
        elif k == "write":
            o = byino.get(r[1])
            if o is not None:
                o.pending.append(("w", r[2], r[3]))
        elif k == "truncate":
            o = byino.get(r[1])
            if o is not None:
                o.pending.append(("t", r[2]))
        elif k == "fsync":
            o = byino.get(r[1])
            if o is not None:
                o.durable = o.apply(o.pending)
                o.pending = []
            committed = len(meta)
        elif k == "rename":
            if r[1] in live:
                live[r[2]] = live.pop(r[1])
            meta.append(r)
        elif k == "unlink":
            live.pop(r[1], None)
            meta.append(r)
        elif k in ("mkdir", "rmdir"):
            meta.append(r)
    cut = rng.randint(committed, len(meta))
    ns, nd = dict(base), set(dirs)
    for r in meta[:cut]:
        if r[0] == "create":
            ns[r[1]] = r[2]
        elif r[0] == "rename":
            if r[1] in ns:
                ns[r[2]] = ns.pop(r[1])
            elif r[1] in nd:
                nd = {r[2] + d[len(r[1]):] if (d + "/").startswith(r[1] + "/") else d for d in nd}
                ns = {r[2] + p[len(r[1]):] if p.startswith(r[1] + "/") else p: o for p, o in ns.items()}
        elif r[0] == "unlink":
            ns.pop(r[1], None)
        elif r[0] == "mkdir":
            nd.add(r[1])
        elif r[0] == "rmdir":
            nd.discard(r[1])
    mode = rng.choice(["none", "all", "prefix", "prefix"])
    for name in os.listdir(root):
        p = os.path.join(root, name)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for d in sorted(nd):
        os.makedirs(d, exist_ok=True)
    lost = 0
    for p, o in sorted(ns.items()):
        n = len(o.pending)
        k = {"none": 0, "all": n}.get(mode)
        if k is None:
            k = rng.randint(0, n)
        ops = o.pending[:k]
        if ops and mode == "prefix" and ops[-1][0] == "w" and rng.random() < 0.5:
            w = ops[-1]
            ops = ops[:-1] + [("w", w[1], w[2][: rng.randint(0, len(w[2]))])]
        lost += n - k
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(o.apply(ops))
    return {"meta_kept": cut, "meta_total": len(meta), "writes_lost": lost, "mode": mode}
