#!/opt/veriftools/pyvenv/bin/python
"""Reads the files of the reference encoder with SciPy and compares (a check of the harness, not of /repo).

cargo build --release --manifest-path harness/Cargo.toml --target-dir harness/target
python3-vt tools/crosscheck.py [COUNT]
"""
import os, subprocess, sys, tempfile
import numpy as np
from scipy.io import netcdf_file
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
count = sys.argv[1] if len(sys.argv) > 1 else "500"
code = {1: ">i1", 2: "S1", 3: ">i2", 4: ">i4", 5: ">f4", 6: ">f8"}
done = skipped = values = 0
with tempfile.TemporaryDirectory() as d:
    subprocess.run([root + "/harness/target/release/ncmon", "emit", "--dir", d, "--count", count, "--seed", "5"], check=True)
    for i in range(int(count)):
        lines = [l.split(" ") for l in open("%s/%d.txt" % (d, i)).read().splitlines()]
        head = lines[0]
        # SciPy supports neither the indeterminate number of records, nor records which are not in the order of
        # the definitions, nor (it counts the padding which is not there) a lone unaligned record variable
        if head[7] == "0" or head[3] == "0" or head[9] != "0":
            skipped += 1
            continue
        try:
            f = netcdf_file("%s/%d.nc" % (d, i), "r", mmap=False)
        except Exception as e:
            print(i, "SciPy cannot read", repr(e)[:200], lines[:3])
            sys.exit(1)
        name = lambda h: bytes.fromhex(h).decode("latin1")
        assert f.version_byte == int(head[1])
        dims = [l for l in lines if l[0] == "dim"]
        assert [name(l[1]) for l in dims] == list(f.dimensions), i
        for l in dims:
            assert f.dimensions[name(l[1])] == (None if l[2] == "none" else int(l[2])), (i, l)
        assert [name(l[1]) for l in lines if l[0] == "var"] == list(f.variables), i
        def attr(attrs, l):
            got = attrs[name(l[1])]
            want = bytes.fromhex(l[3])
            if l[2] == "2":
                got = got if isinstance(got, bytes) else b""
                assert got == want.rstrip(b"\0") or got == want, (i, l, got)
            else:
                a = np.asarray(got)
                assert a.size == 0 and not want or a.astype(code[int(l[2])]).tobytes() == want, (i, l, got)
        cur = None
        for l in lines[1:]:
            if l[0] == "gattr":
                attr(f._attributes, l)
            elif l[0] == "var":
                cur = f.variables[name(l[1])]
                want = bytes.fromhex(l[5])
                assert [name(x) for x in l[4].split(",") if x] == list(cur.dimensions), (i, l)
                got = np.asarray(cur.data)
                if l[2] in "12":
                    got = got.tobytes()
                else:
                    got = got.astype(code[int(l[2])]).tobytes()
                assert got == want, (i, l[:5], len(got), len(want))
                values += len(want)
            elif l[0] == "vattr":
                attr(cur._attributes, l)
        done += 1
print("compared %d files (%d bytes of values), skipped %d" % (done, values, skipped))
