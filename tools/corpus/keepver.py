P = "src/kalmankit/_version.py"
TAGLOOP = open("/repo/" + P).read().split("    for ref in sorted(tags):\n")[1].split("    # no suitable tags, so version")[0]
RUNLOOP = open("/repo/" + P).read().split("    for command in commands:\n")[1].split("    stdout = process.communicate()")[0]
PARENT = open("/repo/" + P).read().split("    rootdirs = []\n")[1].split("@register_vcs_handler(\"git\", \"get_keywords\")")[0]
GV = open("/repo/" + P).read().split("    cfg = get_config()\n    verbose = cfg.verbose\n")[1]
CORPUS = {
    "noop": [(P, "    GITS = [\"git\"]\n", "    pass\n    GITS = [\"git\"]\n")],
    "removeprefix": [(P, "full_tag[len(tag_prefix) :]", "full_tag.removeprefix(tag_prefix)"), (P, "dirname[len(parentdir_prefix) :]", "dirname.removeprefix(parentdir_prefix)"), (P, "            r = ref[len(tag_prefix) :]\n", "            r = ref.removeprefix(tag_prefix)\n")],
    "removesuffix": [(P, "git_describe[: git_describe.rindex(\"-dirty\")]", "git_describe.removesuffix(\"-dirty\")")],
    "slice-neg": [(P, "git_describe[: git_describe.rindex(\"-dirty\")]", "git_describe[:-len(\"-dirty\")]")],
    "rfind": [(P, "git_describe.rindex(\"-dirty\")", "git_describe.rfind(\"-dirty\")")],
    "strip-order": [(P, ".strip().decode(errors=\"replace\")", ".decode(errors=\"replace\").strip()")],
    "env-comp": [(P, "    env = os.environ.copy()\n    env.pop(\"GIT_DIR\", None)\n", "    env = {k: v for k, v in os.environ.items() if k != \"GIT_DIR\"}\n")],
    "env-if": [(P, "    env = os.environ.copy()\n    env.pop(\"GIT_DIR\", None)\n", "    env = dict(os.environ)\n    if \"GIT_DIR\" in env:\n        del env[\"GIT_DIR\"]\n")],
    "env-try": [(P, "    env.pop(\"GIT_DIR\", None)\n", "    try:\n        del env[\"GIT_DIR\"]\n    except KeyError:\n        pass\n")],
    "runner-closure": [(P, "    runner = functools.partial(runner, env=env)\n", "    run = runner\n\n    def runner(*a, **k):\n        return run(*a, env=env, **k)\n")],
    "env-explicit": [(P, "    runner = functools.partial(runner, env=env)\n", "    _run = runner\n    runner = lambda cmds, args, cwd=None, **kw: _run(cmds, args, cwd=cwd, env=env, **kw)\n")],
    "subprocess-run": [(P, "            process = subprocess.Popen(\n                [command] + args,\n", "            process = subprocess.run(\n                [command, *args],\n"), (P, "process.communicate()[0].strip()", "process.stdout.strip()")],
    "popen-with": [(P, "    stdout = process.communicate()[0].strip()", "    out, _ = process.communicate()\n    stdout = out.strip()")],
    "set-comp-loop": [(P, "    refs = {r.strip() for r in refnames.strip(\"()\").split(\",\")}\n", "    refs = set()\n    for r in refnames.strip(\"()\").split(\",\"):\n        refs.add(r.strip())\n")],
    "refs-list": [(P, "    refs = {r.strip() for r in refnames.strip(\"()\").split(\",\")}\n", "    refs = [r.strip() for r in refnames.strip(\"()\").split(\",\")]\n"), (P, "\",\".join(refs - tags)", "\",\".join(set(refs) - tags)")],
    "tags-list": [(P, "    tags = {r[len(TAG) :] for r in refs if r.startswith(TAG)}\n", "    tags = set(r[len(TAG) :] for r in refs if r.startswith(TAG))\n")],
    "tag-helper": [(P, "@register_vcs_handler(\"git\", \"keywords\")\n", "def _marked(refs):\n    TAG = \"tag: \"\n    found = set()\n    for r in refs:\n        if r.startswith(TAG):\n            found.add(r[len(TAG) :])\n    return found\n\n\n@register_vcs_handler(\"git\", \"keywords\")\n"), (P, "    tags = {r[len(TAG) :] for r in refs if r.startswith(TAG)}\n", "    tags = _marked(refs)\n")],
    "loop-invert": [(P, "        if ref.startswith(tag_prefix):\n            r = ref[len(tag_prefix) :]\n", "        if not ref.startswith(tag_prefix):\n            continue\n        else:\n            r = ref[len(tag_prefix) :]\n")],
    "match-digit": [(P, "if not re.match(r\"\\d\", r):", "if re.match(\"[0-9]\", r) is None:")],
    "compiled-re": [(P, "        mo = re.search(r\"^(.+)-(\\d+)-g([0-9a-f]+)$\", git_describe)\n", "        pattern = re.compile(r\"^(.+)-(\\d+)-g([0-9a-f]+)$\")\n        mo = pattern.match(git_describe)\n")],
    "fullmatch": [(P, "re.search(r\"^(.+)-(\\d+)-g([0-9a-f]+)$\", git_describe)", "re.match(r\"(.+)-(\\d+)-g([0-9a-f]+)$\", git_describe)")],
    "groups": [(P, "        full_tag = mo.group(1)\n", "        full_tag, n_commits, short_hash = mo.groups()\n"), (P, "int(mo.group(2))", "int(n_commits)"), (P, "pieces[\"short\"] = mo.group(3)", "pieces[\"short\"] = short_hash")],
    "fstring-render": [(P, "            rendered += \"%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n            if pieces[\"dirty\"]:\n                rendered += \".dirty\"\n    else:\n        # exception #1\n        rendered = \"0+untagged.%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n", "            rendered += f\"{pieces['distance']}.g{pieces['short']}\"\n            if pieces[\"dirty\"]:\n                rendered += \".dirty\"\n    else:\n        # exception #1\n        rendered = \"0+untagged.{}.g{}\".format(pieces[\"distance\"], pieces[\"short\"])\n", 1)],
    "format-render": [(P, "rendered += \"%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])", "rendered = rendered + str(pieces[\"distance\"]) + \".g\" + pieces[\"short\"]")],
    "render-early": [(P, "    if pieces[\"closest-tag\"]:\n        rendered = pieces[\"closest-tag\"]\n        if pieces[\"distance\"] or pieces[\"dirty\"]:\n            rendered += plus_or_dot(pieces)\n            rendered += \"%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n            if pieces[\"dirty\"]:\n                rendered += \".dirty\"\n    else:\n        # exception #1\n        rendered = \"0+untagged.%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n        if pieces[\"dirty\"]:\n            rendered += \".dirty\"\n    return rendered\n", "    suffix = \".dirty\" if pieces[\"dirty\"] else \"\"\n    where = \"%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n    tag = pieces[\"closest-tag\"]\n    if not tag:\n        return \"0+untagged.\" + where + suffix\n    if not pieces[\"distance\"] and not pieces[\"dirty\"]:\n        return tag\n    return tag + plus_or_dot(pieces) + where + suffix\n", 1)],
    "render-dict": [(P, "    if style == \"pep440\":\n        rendered = render_pep440(pieces)\n    elif style == \"pep440-branch\":\n        rendered = render_pep440_branch(pieces)\n", "    simple = {\"pep440\": render_pep440, \"pep440-branch\": render_pep440_branch}\n    if style in simple:\n        rendered = simple[style](pieces)\n")],
    "pieces-literal": [(P, "    pieces: Dict[str, Any] = {}\n    pieces[\"long\"] = full_out\n    pieces[\"short\"] = full_out[:7]  # maybe improved later\n    pieces[\"error\"] = None\n", "    pieces: Dict[str, Any] = {\n        \"long\": full_out,\n        \"short\": full_out[:7],\n        \"error\": None,\n    }\n")],
    "pieces-dict": [(P, "    pieces: Dict[str, Any] = {}\n    pieces[\"long\"] = full_out\n    pieces[\"short\"] = full_out[:7]  # maybe improved later\n    pieces[\"error\"] = None\n", "    pieces: Dict[str, Any] = dict(long=full_out, short=full_out[:7])\n    pieces.update(error=None)\n")],
    "record-helper": [(P, "def get_versions() -> Dict[str, Any]:\n", "def _unknown(reason):\n    return {\n        \"version\": \"0+unknown\",\n        \"full-revisionid\": None,\n        \"dirty\": None,\n        \"error\": reason,\n        \"date\": None,\n    }\n\n\ndef get_versions() -> Dict[str, Any]:\n"), (P, "    return {\n        \"version\": \"0+unknown\",\n        \"full-revisionid\": None,\n        \"dirty\": None,\n        \"error\": \"unable to compute version\",\n        \"date\": None,\n    }\n", "    return _unknown(\"unable to compute version\")\n")],
    "date-helper": [(P, "@register_vcs_handler(\"git\", \"pieces_from_vcs\")\n", "def _iso(date):\n    line = date.strip().splitlines()[-1].strip()\n    return line.replace(\" \", \"T\", 1).replace(\" \", \"\", 1)\n\n\n@register_vcs_handler(\"git\", \"pieces_from_vcs\")\n"), (P, "    date = date.strip()\n    # Use only the last line.  Previous lines may contain GPG signature\n    # information.\n    date = date.splitlines()[-1]\n    pieces[\"date\"] = date.strip().replace(\" \", \"T\", 1).replace(\" \", \"\", 1)\n", "    pieces[\"date\"] = _iso(date)\n")],
    "root-nested": [(P, "        root = os.path.realpath(__file__)\n        # versionfile_source is the relative path from the top of the source\n        # tree (where the .git directory might live) to this file. Invert\n        # this to find the root from __file__.\n        for _ in cfg.versionfile_source.split(\"/\"):\n            root = os.path.dirname(root)\n", "        here = os.path.realpath(__file__)\n        n_up = len(cfg.versionfile_source.split(\"/\"))\n        root = here\n        while n_up > 0:\n            root = os.path.dirname(root)\n            n_up -= 1\n")],
    "root-range": [(P, "        for _ in cfg.versionfile_source.split(\"/\"):\n", "        for _ in range(cfg.versionfile_source.count(\"/\") + 1):\n")],
    "parent-while": [(P, "    for _ in range(3):\n        dirname = os.path.basename(root)\n", "    for _level in (0, 1, 2):\n        dirname = os.path.basename(root)\n")],
    "parent-split": [(P, "        dirname = os.path.basename(root)\n", "        parent, dirname = os.path.split(root)\n"), (P, "        root = os.path.dirname(root)  # up a level\n", "        root = parent\n")],
    "rc-check-or": [(P, "    if rc != 0:\n        if verbose:\n            print(\"Directory %s not under git control\" % root)\n", "    if not rc == 0:\n        if verbose:\n            print(\"Directory %s not under git control\" % root)\n")],
    "git-helper": [(P, "    full_out, rc = runner(GITS, [\"rev-parse\", \"HEAD\"], cwd=root)\n    if full_out is None:\n        raise NotThisMethod(\"'git rev-parse' failed\")\n    full_out = full_out.strip()\n", "    def ask(what, *words):\n        out, _ = runner(GITS, list(words), cwd=root)\n        if out is None:\n            raise NotThisMethod(\"'git %s' failed\" % what)\n        return out.strip()\n\n    full_out = ask(\"rev-parse\", \"rev-parse\", \"HEAD\")\n")],
    "branch-short": [(P, "            branch_name = branches[0]\n", "            branch_name = next(iter(branches))\n")],
    "branch-filter": [(P, "        # Remove the first line if we're running detached\n        if \"(\" in branches[0]:\n            branches.pop(0)\n", "        # Remove the first line if we're running detached\n        if \"(\" in branches[0]:\n            branches = branches[1:]\n")],
    "branch-helper": [(P, "@register_vcs_handler(\"git\", \"pieces_from_vcs\")\n", "def _pick_branch(text):\n    lines = text.split(\"\\n\")\n    if \"(\" in lines[0]:\n        lines.pop(0)\n    lines = [line[2:] for line in lines]\n    if \"master\" in lines:\n        return \"master\"\n    if not lines:\n        return None\n    return lines[0]\n\n\n@register_vcs_handler(\"git\", \"pieces_from_vcs\")\n"), (P, "        branches = branches.split(\"\\n\")\n\n        # Remove the first line if we're running detached\n        if \"(\" in branches[0]:\n            branches.pop(0)\n\n        # Strip off the leading \"* \" from the list of branches.\n        branches = [branch[2:] for branch in branches]\n        if \"master\" in branches:\n            branch_name = \"master\"\n        elif not branches:\n            branch_name = None\n        else:\n            # Pick the first branch that is returned. Good or bad.\n            branch_name = branches[0]\n", "        branch_name = _pick_branch(branches)\n")],
    "handler-tuple": [(P, "    except NotThisMethod:\n        pass\n\n    try:\n        root", "    except (NotThisMethod, KeyError):\n        pass\n\n    try:\n        root")],
    "run-return-early": [(P, "    else:\n        if verbose:\n            print(\"unable to find command, tried %s\" % (commands,))\n        return None, None\n    stdout", "    if process is None:\n        if verbose:\n            print(\"unable to find command, tried %s\" % (commands,))\n        return None, None\n    stdout")],
    "run-filenotfound": [(P, "        except OSError as e:\n            if e.errno == errno.ENOENT:\n                continue\n            if verbose:\n                print(\"unable to run %s\" % dispcmd)\n                print(e)\n            return None, None\n", "        except FileNotFoundError:\n            continue\n        except OSError as e:\n            if verbose:\n                print(\"unable to run %s\" % dispcmd)\n                print(e)\n            return None, None\n")],
    "describe-args-var": [(P, "    describe_out, rc = runner(\n        GITS,\n        [\n            \"describe\",\n            \"--tags\",\n            \"--dirty\",\n            \"--always\",\n            \"--long\",\n            \"--match\",\n            f\"{tag_prefix}[[:digit:]]*\",\n        ],\n        cwd=root,\n    )\n", "    describe_args = [\"describe\", \"--tags\", \"--always\", \"--dirty\"]\n    describe_args += [\"--long\", \"--match=\" + tag_prefix + \"[[:digit:]]*\"]\n    describe_out, rc = runner(GITS, describe_args, cwd=root)\n")],
    "dash-partition": [(P, "    if \"-\" in git_describe:\n", "    tagged = git_describe.find(\"-\") != -1\n    if tagged:\n")],
    "rsplit-describe": [(P, "        mo = re.search(r\"^(.+)-(\\d+)-g([0-9a-f]+)$\", git_describe)\n        if not mo:\n", "        mo = re.search(r\"^(?P<tag>.+)-(?P<n>\\d+)-g(?P<hash>[0-9a-f]+)$\", git_describe)\n        if mo is None:\n")],
    "revcount": [(P, "        out, rc = runner(GITS, [\"rev-list\", \"HEAD\", \"--left-right\"], cwd=root)\n        if out is None:\n            raise NotThisMethod(\"'git rev-list' failed\")\n        pieces[\"distance\"] = len(out.split())  # total number of commits\n", "        out, rc = runner(GITS, [\"rev-list\", \"--count\", \"HEAD\"], cwd=root)\n        if out is None:\n            raise NotThisMethod(\"'git rev-list' failed\")\n        pieces[\"distance\"] = int(out)  # total number of commits\n")],
    "revlist-lines": [(P, "len(out.split())", "len(out.splitlines())")],
    "log-date": [(P, "[\"show\", \"-s\", \"--format=%ci\", \"HEAD\"]", "[\"log\", \"-1\", \"--format=%ci\", \"HEAD\"]")],
    "sorted-first": [(P, "    for ref in sorted(tags):\n" + TAGLOOP, "    good = sorted(\n        t[len(tag_prefix) :]\n        for t in tags\n        if t.startswith(tag_prefix) and re.match(r\"\\d\", t[len(tag_prefix) :])\n    )\n    if good:\n        return {\n            \"version\": good[0],\n            \"full-revisionid\": keywords[\"full\"].strip(),\n            \"dirty\": False,\n            \"error\": None,\n            \"date\": date,\n        }\n")],
    "min-tag": [(P, "    for ref in sorted(tags):\n" + TAGLOOP, "    good = [t for t in tags if re.match(tag_prefix + r\"\\d\", t)]\n    if good:\n        return {\n            \"version\": min(good)[len(tag_prefix) :],\n            \"full-revisionid\": keywords[\"full\"].strip(),\n            \"dirty\": False,\n            \"error\": None,\n            \"date\": date,\n        }\n")],
    "next-tag": [(P, "    for ref in sorted(tags):\n" + TAGLOOP, "    r = next((t[len(tag_prefix) :] for t in sorted(tags) if t.startswith(tag_prefix) and re.match(r\"\\d\", t[len(tag_prefix) :])), None)\n    if r is not None:\n        return {\n            \"version\": r,\n            \"full-revisionid\": keywords[\"full\"].strip(),\n            \"dirty\": False,\n            \"error\": None,\n            \"date\": date,\n        }\n")],
    "loop-flag": [(P, "    for ref in sorted(tags):\n" + TAGLOOP, "    found = None\n    for ref in sorted(tags):\n        if not ref.startswith(tag_prefix):\n            continue\n        r = ref[len(tag_prefix) :]\n        if re.match(r\"\\d\", r):\n            found = r\n            break\n    if found is not None:\n        return {\n            \"version\": found,\n            \"full-revisionid\": keywords[\"full\"].strip(),\n            \"dirty\": False,\n            \"error\": None,\n            \"date\": date,\n        }\n")],
    "kw-order": [(P, "    refnames = keywords[\"refnames\"].strip()\n    if refnames.startswith(\"$Format\"):\n", "    refnames = keywords[\"refnames\"].strip()\n    unexpanded = refnames.startswith(\"$Format\")\n    if unexpanded:\n")],
    "kw-in": [(P, "refnames.startswith(\"$Format\")", "\"$Format\" in refnames")],
    "merge-fallback": [(P, GV, "\n    def from_keywords():\n        return git_versions_from_keywords(get_keywords(), cfg.tag_prefix, verbose)\n\n    unknown = {\n        \"version\": \"0+unknown\",\n        \"full-revisionid\": None,\n        \"dirty\": None,\n        \"error\": \"unable to compute version\",\n        \"date\": None,\n    }\n    try:\n        return from_keywords()\n    except NotThisMethod:\n        pass\n    try:\n        root = os.path.realpath(__file__)\n        for _ in cfg.versionfile_source.split(\"/\"):\n            root = os.path.dirname(root)\n    except NameError:\n        return dict(unknown, error=\"unable to find root of source tree\")\n    for source in (\n        lambda: render(git_pieces_from_vcs(cfg.tag_prefix, root, verbose), cfg.style),\n        lambda: versions_from_parentdir(cfg.parentdir_prefix, root, verbose),\n    ):\n        try:\n            return source()\n        except NotThisMethod:\n            continue\n    return unknown\n")],
    "init-once": [("src/kalmankit/__init__.py", "__version__ = get_versions()[\"version\"]\ndel get_versions\n\n__version__ = _version.get_versions()[\"version\"]\n", "__version__ = _version.get_versions()[\"version\"]\n")],
    "init-first": [("src/kalmankit/__init__.py", "\n__version__ = _version.get_versions()[\"version\"]\n", "\n")],
    "config-class": [(P, "    cfg = VersioneerConfig()\n    cfg.VCS = \"git\"\n    cfg.style = \"pep440\"\n    cfg.tag_prefix = \"v\"\n", "    cfg = VersioneerConfig()\n    cfg.VCS, cfg.style = \"git\", \"pep440\"\n    setattr(cfg, \"tag_prefix\", \"v\")\n")],
    "walrus": [(P, "        mo = re.search(r\"^(.+)-(\\d+)-g([0-9a-f]+)$\", git_describe)\n        if not mo:\n", "        if not (mo := re.search(r\"^(.+)-(\\d+)-g([0-9a-f]+)$\", git_describe)):\n")],
    "errno-cmp": [(P, "            if e.errno == errno.ENOENT:\n                continue\n", "            if errno.ENOENT == e.errno:\n                continue\n")],
    "textmode": [(P, "                stdout=subprocess.PIPE,\n", "                stdout=subprocess.PIPE,\n                encoding=\"utf-8\",\n                errors=\"replace\",\n"), (P, ".strip().decode(errors=\"replace\")", ".strip()")],
}
