#!/usr/bin/env python3
"""inject_keys.py REPO OUT: writes a Go file for package bento that exports the input decoder:
the function that reads an io.Reader and delivers messages, whatever it is called, in whatever order it
takes its parameters, whether it delivers to a channel or to a function, and whether or not it returns an error."""
import glob, os, re, sys
repo, out = sys.argv[1:3]
head = re.compile(r"^func (\w+)\(([^()]*(?:\([^()]*\)[^()]*)*)\)[ \t]*(\(?[\w., ]*\)?)[ \t]*\{", re.M)

def params(text):
    """The types of the parameters, in order; None for what we do not understand."""
    parts, depth, cur = [], 0, ""
    for ch in text:
        depth += ch == "("
        depth -= ch == ")"
        if ch == "," and depth == 0:
            parts.append(cur); cur = ""
        else:
            cur += ch
    parts.append(cur)
    types, later = [], None
    for p in reversed([p.strip() for p in parts if p.strip()]):
        m = re.match(r"^(\w+)\s+(.+)$", p, re.S)
        if m:
            later = " ".join(m.group(2).split())
        types.insert(0, later)
    return types

ARGS = {"context.Context": "ctx", "chan<- Msg": "msgs", "chan Msg": "both", "io.Reader": "r",
        "func(Msg)": "send", "func(msg Msg)": "send", "func(Msg) error": "sendErr", "func(msg Msg) error": "sendErr",
        "func(Msg) bool": "sendBool", "func(msg Msg) bool": "sendBool"}
found = []
for f in sorted(glob.glob(os.path.join(repo, "*.go"))):
    if f.endswith("_test.go") or f.endswith("_windows.go"):
        continue
    for name, ps, res in head.findall(open(f).read()):
        types = params(ps)
        if any(t not in ARGS for t in types) or res.strip() not in ("error", ""):
            continue
        args = [ARGS[t] for t in types]
        if args.count("r") == 1 and sum(a not in ("ctx", "r") for a in args) == 1:
            found.append((name, args, res.strip()))
if not found:
    sys.exit("no input decoder (a function of an io.Reader and of a channel or function for the messages) in package bento: adapt tools/inject_keys.py")
pick = next((x for x in found if x[0] == "readInputs"), found[0])
name, args, res = pick
code = ""
if "both" in args:
    code += "	both := make(chan Msg)\n	done := make(chan struct{})\n	go func() {\n		defer close(done)\n		for m := range both {\n			msgs <- m\n		}\n	}()\n	defer func() { close(both); <-done }()\n"
if "send" in args:
    code += "	send := func(m Msg) { msgs <- m }\n"
if "sendErr" in args:
    code += "	sendErr := func(m Msg) error { msgs <- m; return nil }\n"
if "sendBool" in args:
    code += "	sendBool := func(m Msg) bool { msgs <- m; return true }\n"
call = "%s(%s)" % (name, ", ".join(args))
code += "	return %s\n" % call if res else "	%s\n	return io.EOF\n" % call
open(out, "w").write('''package bento

import (
	"context"
	"io"
)

// VerifReadInputs is the input decoder.
func VerifReadInputs(ctx context.Context, msgs chan<- Msg, r io.Reader) error {
%s}
''' % code)
