#!/usr/bin/env python3
"""overlay.py DIR: writes DIR/map.json, a build overlay that adds control of map iteration order to the Go runtime."""
import json, os, subprocess, sys
out = os.path.abspath(sys.argv[1]); os.makedirs(out, exist_ok=True)
root = subprocess.check_output(['go', 'env', 'GOROOT'], text=True).strip()
t = root + '/src/internal/runtime/maps/table.go'
s = open(t).read()
a = "\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n"
if s.count(a) != 1: sys.exit('the map iterator of this Go version is not the expected one')
s = s.replace(a, """\tif VerifOn {
		if a := uintptr(unsafe.Pointer(m)); a == VerifKey {
			it.entryOffset = VerifKeyOff
		} else {
			i := VerifN
			VerifN = i + 1
			if i < len(VerifOff) {
				it.entryOffset = VerifOff[i]
				VerifUsed[i] = m.used
				VerifMap[i] = a
			}
		}
	} else {
		it.entryOffset = rand()
		it.dirOffset = rand()
	}
""") + """
// Control of the iteration order, for exhaustive exploration.
var (
	VerifOn   bool
	VerifN    int
	VerifOff  [256]uint64
	VerifUsed [256]uint64
	VerifMap  [256]uintptr

	// all iterations of the map at this address start at this offset
	VerifKey    uintptr
	VerifKeyOff uint64
)
"""
def put(p, s):
    if not os.path.exists(p) or open(p).read() != s: open(p, 'w').write(s)
put(out + '/table.go', s)
put(out + '/map.json', json.dumps({"Replace": {t: out + '/table.go'}}))
