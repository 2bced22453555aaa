"""Writes the fixed: lines of known-findings.txt from the fix commits in /repo."""
import subprocess
m={"treat unwritten extents as holes":("P01","data of unwritten extents was returned instead of zeros"),
"treat null indirect block pointers as holes":("P02","sparse files with a null indirect pointer could not be read"),
"bound the work of File::seek_to and report its errors":("P03","seek_to iterated over every block up to the position and swallowed errors"),
"do not panic in File::read_bytes after a block iterator error":("P12","read_bytes panicked when called again after an error"),
"do not panic on an htree node whose count exceeds the block":("P11","lookup panicked on an index node whose count exceeds the block"),
"decode the record length of directory entries filling a 64KiB block":("P04","directory entries filling a 64 KiB block were rejected"),
"honour the unsigned directory hash flag and the reserved hash value":("P05","lookup missed names with bytes >= 0x80 on unsigned-hash filesystems, and names hashing to the reserved value"),
"follow hash collisions into the next htree block":("P05","lookup missed entries whose hash collision run continues in the next leaf"),
"allow paths with more than 1000 components":("P06","paths with more than 1000 components were refused as too many symlinks"),
"do not return ciphertext of encrypted files and symlinks":("P07","encrypted files and links returned their ciphertext"),
"apply journal revocations to earlier transactions":("P09","blocks revoked by a later transaction were replayed"),
"treat a journal with a start block of zero as empty":("P09","an empty journal was replayed from its superblock on"),
"let the journal sequence number wrap around":("P09","journals whose sequence number wraps were refused"),
"the size field of a journal revocation block includes its header":("P09","two extra bogus revoke records were read; full revoke blocks ended the replay"),
"read the journal as a circular log":("P09","transactions after the end of the log wraps were dropped"),
"use the journaled superblock and block group descriptors":("P09","label, size and group descriptors changed through the journal were not seen"),
"do not take empty block cache entries for block 0":("P13","reads of block 0 returned zeros until the cache was full"),
}
import json,sys
try: m.update({k:tuple(v) for k,v in json.load(open('/verif/tools/fixed.json')).items()})
except FileNotFoundError: pass
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%H %s"],capture_output=True,text=True).stdout
lines=[l for l in open('/verif/known-findings.txt').read().splitlines() if not l.startswith('fixed:')]
for l in log.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    p,t=m[s[5:]]
    lines.append(f"fixed: property={p} {h[:12]} {t}")
open('/verif/known-findings.txt','w').write("\n".join(lines)+"\n")
