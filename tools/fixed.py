"""Appends the fixed: lines of all fix commits in /repo to known_findings.txt (property by table below)."""
import subprocess
T = {"a97ee01": "W02", "528156a": "C26", "123d352": "C26", "197d0d1": "C26", "3ae7ce6": "C26", "c16be08": "W02", "b99cd32": "W02",
     "b82c99b": "W01", "741057a": "C26", "2b55fa5": "E14", "052d474": "W05", "0b1f768": "W06", "58f68eb": "W01",
     "afed95c": "W07", "359dd05": "W07", "ded9fd6": "B11", "cd6b69b": "B10",
     "42fc87e": "B12", "fdfb6dd": "E13", "a94a4cc": "J17", "acf8d9b": "J17",
     "31f07bd": "C26", "bcfd23c": "E15", "efa6d3e": "E15", "64cb9c5": "E15", "2910969": "E15", "b71e344": "E15",
     "29826cf": "E15", "7b6bf88": "C27", "6fa73e9": "C27", "abb0fb9": "C26", "c9ed42c": "E15", "9108624": "E15",
     "b2589f3": "C27", "16bff63": "E15", "6af01dd": "C26", "88f5ed5": "E15"}
S = {"C++ propagating copies of unions": "E14", "C++ self-assignment of arrays": "E14", "StringView::find_last_of": "E14", "C++ AnyHolder leaks": "E14", "Regex walk filter": "T19", "Java tree creator loses": "T19", "unicode and hexadecimal escapes in string": "E15", "octal escapes of strings": "E15", "lengthof of strings with escapes": "E15",
     "C++ left shift of signed integers by 31": "E15", "Java modulo of big integers": "E15",
     "when writer code is not generated": "O29", "preallocated array": "F33", "shows up on the last flush": "F33",
     "bit field lengths beyond": "C27", "octal literals in templates": "E15", "empty comments hide": "C25", "stack overflow on indirectly": "C25",
     "sql table used as a type of a parameter": "C25", "extern and bytes columns": "C25", "services and pubsubs used as types": "C25",
     "templates with arguments of types which are not templates": "C25",
     "documentation of": "D30", "code with comments is invalid": "D30", "documentation shows pubsub": "D30", "documentation of constants": "D30",
     "C++ SQL table reads blobs": "S23", "SQL validation": "S23"}
p = "/verif/known_findings.txt"
keep = [l for l in open(p).read().split("\n") if l and not l.startswith("fixed:")]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in out.strip().split("\n"):
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        q = next((v for k, v in T.items() if h.startswith(k)), None)
        q = q or next((v for k, v in S.items() if k in s), None)
        if q is None:
            print("no property for", h, s)
            continue
        keep.append("fixed: property=%s %s %s" % (q, h, s[5:]))
open(p, "w").write("\n".join(keep) + "\n")
