#!/usr/bin/env python3
"""Writes known_findings.json: nothing is suppressed at present; every genuine defect met so far was repaired."""
import json, os, subprocess
F = """a88c83d C10 a short write dropped the rest of the buffer: data files were damaged without any error
7faab9f C08 inspect space returned JSON with a superfluous or missing comma
bb5da75 C08 rows written before several alter model statements saw only the last schema change
6b17517 C01 alter model update moved the updated field to the end, in answers and in restored rows
b683707 C01 restored batches were decoded with the fields of the newest schema instead of those of the time of the batch
1d5cf64 C20 the owned iterator of the ordered index read nodes that it had freed (use after free)
88b5571 C20 restoring a batch looked at rows it had freed (use after free at start)
ced5501 C08 an update whose later assignment failed kept its earlier assignments, and values were not validated against nullability and range
5a07666 C08 a model could be created with a nullable primary key
6edb0b4 C14 malformed packets and handshakes ended in a panic, an integer overflow or a closed connection without an answer
055b40f C12 alter model took the model lock before the space lock: deadlock with concurrent DDL
2a41d36 C03 the versions of a row's deltas did not follow the order of its changes: an older value could win in a batch
0d865a3 C08 alter space dropped new maps inside env
86cd377 C09 a failed journal event left a partial event behind; later events were unreadable after a restart
9a4cd60 C04 a journal that was not closed cleanly (any crash) or ended in a torn event made the server refuse to start; batches were applied before their checksum was verified
488ffd1 C09 a drop space whose event failed had already removed models
3f5eb41 C10 rows of a batch that could not be written were forgotten
e93c2cb C20 at shutdown a statement's buffers were freed while its blocking task was still using them
4935547 C04 the header of a new journal was not synced before the event that refers to the file: unreadable after power loss
8c3d5f4 C04 an interrupted first start left a GNS behind which every later start refused
10436da C04 create model failed for ever if a crash had taken its space's directory
bf1ed75 C13 of several statements that arrived together only the first was answered
9c1c66e C14 one stalled TLS handshake kept all others from connecting
5ff5e27 C20 statements that end early or have an odd limit made the parser panic
5536158 C08 an insert that ends in the middle of its data was executed
e44b440 C14 deeply nested collections and types overflowed the stack and aborted the server
2e4dbf8 C17 a damaged tag in a data file became an invalid enum value (undefined behaviour) instead of an error
7b44f11 C08 alter user was refused for every user
b69369c C20 a password with a null character at login, and an empty one or one with a null character in create/alter user, ended in a panic
b9454eb C15 passwords longer than 72 bytes were compared by their first 72 bytes only
9c4c1c0 C17 damage of the last but one event of a journal that was not closed was taken for an interrupted write: committed events after it were dropped
864d8f4 C17 a damaged count in an alter model event made the start panic (capacity overflow)
eb389c7 C18 rows of a v1 directory whose model changed between batches were restored with wrong or missing fields, or the start panicked
8ec5ef2 C18 after an upgrade from storage v1 the next start refused the upgraded models, and root kept no configured password
7713364 C18 a crash or disk error while upgrading from storage v1 lost the data or left a directory that could not be started
5c46585 C03 a row that was not there after a restart came back with the next crash: the removal of an uncommitted event in an otherwise empty journal was never synced
19ecf24 C14 alter space replacing a dictionary in the environment by a plain value was answered with success and removed the entry (in a debug build the handler panicked and the connection died)
bea7148 C17 an event whose kind was damaged is read with lengths that overflow when they are added (the server panicked while starting in a debug build, and could pass the bounds check in a release build)
8dc6cdc C17 an alter model update event whose kind was damaged to a removal panicked the server while starting"""
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in F.splitlines():
    h, p, w = l.split(" ", 2)
    if h == "7b44f11":
        h = [x.split()[0] for x in log.splitlines() if "alter user works" in x][0]
    fixed.append(f"fixed: property={p} {h} {w}")
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
json.dump(dict(findings=[], fixed=fixed), open("known_findings.json", "w"), indent=1, ensure_ascii=False)
open("known_findings.json", "a").write("\n")
