"""Reference for the version lookup (read by the same engine as the program; never executed)."""
import os
import re
import subprocess


class Declined(Exception):
    pass


def git(root, args):
    env = os.environ.copy()
    env.pop("GIT_DIR", None)
    try:
        p = subprocess.Popen(["git"] + args, cwd=root, env=env, stdout=subprocess.PIPE)
    except OSError:
        raise Declined()
    out = p.communicate()[0].strip().decode(errors="replace")
    if p.returncode != 0:
        raise Declined()
    return out


def iso(date):
    return date.splitlines()[-1].strip().replace(" ", "T", 1).replace(" ", "", 1)


def record(version, full, dirty, error, date):
    return {"version": version, "full-revisionid": full, "dirty": dirty, "error": error, "date": date}


def from_keywords(prefix):
    names = "$Format:%d$".strip()
    if names.startswith("$Format"):
        raise Declined()
    refs = {r.strip() for r in names.strip("()").split(",")}
    tags = {r[5:] for r in refs if r.startswith("tag: ")}
    if not tags:
        tags = {r for r in refs if re.search(r"\d", r)}
    full = "$Format:%H$".strip()
    for tag in sorted(tags):
        if tag.startswith(prefix):
            rest = tag[len(prefix):]
            if not re.match(r"\d", rest):
                continue
            return record(rest, full, False, None, iso("$Format:%ci$"))
    return record("0+unknown", full, False, "no suitable tags", None)


def from_git(prefix, root):
    git(root, ["rev-parse", "--git-dir"])
    described = git(root, ["describe", "--tags", "--dirty", "--always", "--long", "--match", prefix + "[[:digit:]]*"])
    full = git(root, ["rev-parse", "HEAD"])
    text = described
    dirty = text.endswith("-dirty")
    if dirty:
        text = text[:-6]
    if "-" in text:
        mo = re.search(r"^(.+)-(\d+)-g([0-9a-f]+)$", text)
        if not mo:
            return record("unknown", full, None, "unparsable", None)
        tag = mo.group(1)
        if not tag.startswith(prefix):
            return record("unknown", full, None, "prefix", None)
        tag = tag[len(prefix):]
        distance = int(mo.group(2))
        short = mo.group(3)
    else:
        tag = None
        distance = len(git(root, ["rev-list", "HEAD", "--left-right"]).split())
        short = full[:7]
    date = iso(git(root, ["show", "-s", "--format=%ci", "HEAD"]))
    if tag:
        version = tag
        if distance or dirty:
            if "+" in tag:
                version += "."
            else:
                version += "+"
            version += "%d.g%s" % (distance, short)
            if dirty:
                version += ".dirty"
    else:
        version = "0+untagged.%d.g%s" % (distance, short)
        if dirty:
            version += ".dirty"
    return record(version, full, dirty, None, date)


def from_parentdir(prefix, root):
    for _ in range(3):
        name = os.path.basename(root)
        if name.startswith(prefix):
            return record(name[len(prefix):], None, False, None, None)
        root = os.path.dirname(root)
    raise Declined()


def unknown():
    return record("0+unknown", None, None, "unable to compute version", None)


def root_of(levels):
    root = os.path.realpath(__file__)
    for _ in range(levels):
        root = os.path.dirname(root)
    return root


def lookup(prefix, parentdir, levels):
    try:
        return from_keywords(prefix)
    except Declined:
        pass
    try:
        root = root_of(levels)
    except NameError:
        return unknown()
    try:
        return from_git(prefix, root)
    except Declined:
        pass
    try:
        return from_parentdir(parentdir, root)
    except Declined:
        pass
    return unknown()
