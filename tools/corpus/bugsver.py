P = "src/kalmankit/_version.py"
I = "src/kalmankit/__init__.py"
ENV = "    env = os.environ.copy()\n    env.pop(\"GIT_DIR\", None)\n    runner = functools.partial(runner, env=env)\n"
RUN = "runner(GITS, [\"rev-parse\", \"HEAD\"], cwd=root)"
CORPUS = {
    # C28: content of the version
    "v-plus-always": [["C28"], (P, "    if \"+\" in pieces.get(\"closest-tag\", \"\"):\n        return \".\"\n    return \"+\"", "    return \"+\"")],
    "v-plus-swapped": [["C28"], (P, "        return \".\"\n    return \"+\"", "        return \"+\"\n    return \".\"")],
    "v-plus-ends": [["C28"], (P, "    if \"+\" in pieces.get(\"closest-tag\", \"\"):", "    if pieces.get(\"closest-tag\", \"\").endswith(\"+\"):")],
    "v-dirty-dropped-untagged": [["C28"], (P, "        rendered = \"0+untagged.%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n        if pieces[\"dirty\"]:\n            rendered += \".dirty\"\n", "        rendered = \"0+untagged.%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n", 1)],
    "v-dirty-only-distance": [["C28"], (P, "        rendered = pieces[\"closest-tag\"]\n        if pieces[\"distance\"] or pieces[\"dirty\"]:\n            rendered += plus_or_dot(pieces)\n            rendered += \"%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n            if pieces[\"dirty\"]:", "        rendered = pieces[\"closest-tag\"]\n        if pieces[\"distance\"]:\n            rendered += plus_or_dot(pieces)\n            rendered += \"%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n            if pieces[\"dirty\"]:", 1)],
    "v-short-from-full": [["C28"], (P, "        # commit: short hex revision ID\n        pieces[\"short\"] = mo.group(3)\n", "        # commit: short hex revision ID\n")],
    "v-greedy": [["C28"], (P, "r\"^(.+)-(\\d+)-g([0-9a-f]+)$\"", "r\"^(.+?)-(\\d+)-g([0-9a-f]+)\"")],
    "v-notdash": [["C28"], (P, "r\"^(.+)-(\\d+)-g([0-9a-f]+)$\"", "r\"^([^-]+)-(\\d+)-g([0-9a-f]+)$\"")],
    "v-onedigit": [["C28"], (P, "r\"^(.+)-(\\d+)-g([0-9a-f]+)$\"", "r\"^(.+)-(\\d)-g([0-9a-f]+)$\"")],
    "v-hex7": [["C28"], (P, "r\"^(.+)-(\\d+)-g([0-9a-f]+)$\"", "r\"^(.+)-(\\d+)-g([0-9a-f]{7})$\"")],
    "v-word": [["C28"], (P, "r\"^(.+)-(\\d+)-g([0-9a-f]+)$\"", "r\"^([\\w.]+)-(\\d+)-g([0-9a-f]+)$\"")],
    "v-index-dirty": [["C28"], (P, "git_describe.rindex(\"-dirty\")", "git_describe.index(\"-dirty\")")],
    "v-dirty-in": [["C28"], (P, "    dirty = git_describe.endswith(\"-dirty\")", "    dirty = \"-dirty\" in git_describe")],
    "v-replace": [["C28"], (P, "        pieces[\"closest-tag\"] = full_tag[len(tag_prefix) :]", "        pieces[\"closest-tag\"] = full_tag.replace(tag_prefix, \"\")")],
    "v-split-tag": [["C28"], (P, "        pieces[\"closest-tag\"] = full_tag[len(tag_prefix) :]", "        pieces[\"closest-tag\"] = full_tag.split(tag_prefix)[1]")],
    "v-notags": [["C28"], (P, "            \"--tags\",\n", "")],
    "v-nolong": [["C28"], (P, "            \"--long\",\n", "")],
    "v-noalways": [["C28"], (P, "            \"--always\",\n", "")],
    "v-nodirty": [["C28"], (P, "            \"--dirty\",\n", "")],
    "v-match-star": [["C28"], (P, "f\"{tag_prefix}[[:digit:]]*\"", "f\"{tag_prefix}*\"")],
    "v-broken-mark": [["C28"], (P, "            \"--dirty\",\n", "            \"--dirty=-modified\",\n")],
    "v-first-parent": [["C28"], (P, "            \"--long\",\n", "            \"--long\",\n            \"--first-parent\",\n")],
    "v-count-lines": [["C28"], (P, "len(out.split())", "len(out)")],
    "v-count-off": [["C28"], (P, "len(out.split())", "len(out.split()) - 1")],
    "v-date-first-line": [["C28"], (P, "    date = date.splitlines()[-1]\n    pieces", "    date = date.splitlines()[0]\n    pieces")],
    "v-date-all-spaces": [["C28"], (P, "pieces[\"date\"] = date.strip().replace(\" \", \"T\", 1).replace(\" \", \"\", 1)", "pieces[\"date\"] = date.strip().replace(\" \", \"T\")")],
    "v-author-date": [["C28"], (P, "\"--format=%ci\"", "\"--format=%ai\"")],
    "v-error-lost": [["C28"], (P, "            \"error\": pieces[\"error\"],\n            \"date\": None,", "            \"error\": None,\n            \"date\": None,")],
    "v-error-version": [["C28"], (P, "            \"version\": \"unknown\",", "            \"version\": \"0+unknown\",")],
    "v-dirty-not": [["C28"], (P, "        \"dirty\": pieces[\"dirty\"],", "        \"dirty\": False,")],
    "v-long-short": [["C28"], (P, "        \"full-revisionid\": pieces[\"long\"],", "        \"full-revisionid\": pieces[\"short\"],")],
    "v-abbrev": [["C28"], (P, RUN, "runner(GITS, [\"rev-parse\", \"--short\", \"HEAD\"], cwd=root)")],
    "v-tag0": [["C28"], (P, "    if pieces[\"closest-tag\"]:\n        rendered = pieces[\"closest-tag\"]\n        if pieces[\"distance\"] or pieces[\"dirty\"]:\n            rendered += plus_or_dot(pieces)\n            rendered += \"%d", "    if pieces[\"closest-tag\"] and pieces[\"distance\"]:\n        rendered = pieces[\"closest-tag\"]\n        if pieces[\"distance\"] or pieces[\"dirty\"]:\n            rendered += plus_or_dot(pieces)\n            rendered += \"%d", 1)],
    "v-style": [["C28", "C30"], (P, "cfg.style = \"pep440\"", "cfg.style = \"pep440-post\"")],
    "v-style-branch": [["C30"], (P, "cfg.style = \"pep440\"", "cfg.style = \"pep440-branch\"")],
    # C27
    "r-errno": [["C27"], (P, "        except OSError as e:\n            if e.errno == errno.ENOENT:\n                continue", "        except FileNotFoundError as e:\n            if e.errno == errno.ENOENT:\n                continue")],
    "r-else": [["C27"], (P, "    else:\n        if verbose:\n            print(\"unable to find command, tried %s\" % (commands,))\n        return None, None\n    stdout", "    stdout")],
    "r-describe-none": [["C27"], (P, "    if describe_out is None:\n        raise NotThisMethod(\"'git describe' failed\")\n", "")],
    "r-full-none": [["C27"], (P, "    if full_out is None:\n        raise NotThisMethod(\"'git rev-parse' failed\")\n", "")],
    "r-key-date": [["C27"], (P, "        \"date\": pieces.get(\"date\"),\n    }", "    }")],
    "r-key-error": [["C27"], (P, "                \"dirty\": False,\n                \"error\": None,\n                \"date\": None,\n            }\n        rootdirs", "                \"dirty\": False,\n                \"date\": None,\n            }\n        rootdirs")],
    "r-branch-pop": [["C27"], (P, "        elif not branches:\n            branch_name = None\n", "")],
    "r-long": [["C27"], (P, "    pieces[\"long\"] = full_out\n", "    pieces[\"full\"] = full_out\n")],
    "r-parentdir": [["C27"], (P, "            return versions_from_parentdir(cfg.parentdir_prefix, root, verbose)\n    except NotThisMethod:\n        pass\n", "            return versions_from_parentdir(cfg.parentdir_prefix, root, verbose)\n    finally:\n        pass\n")],
    "r-catch-narrow": [["C27"], (P, "        return render(pieces, cfg.style)\n    except NotThisMethod:\n        pass", "        return render(pieces, cfg.style)\n    except KeyError:\n        pass")],
    "r-nofile": [["C27"], (P, "    except NameError:\n        return {", "    except AttributeError:\n        return {")],
    "r-init-raise": [["C27"], (I, "__version__ = _version.get_versions()[\"version\"]\n", "__version__ = _version.get_versions()[\"version\"]\nif not __version__[0].isdigit():\n    raise ImportError(\"bad version\")\n")],
    "r-init-error": [["C27"], (I, "__version__ = _version.get_versions()[\"version\"]\n", "_info = _version.get_versions()\nif _info[\"error\"]:\n    raise ImportError(_info[\"error\"])\n__version__ = _info[\"version\"]\n")],
    "r-int-version": [["C27"], (I, "__version__ = _version.get_versions()[\"version\"]\n", "__version__ = _version.get_versions()[\"version\"]\nversion_info = tuple(int(x) for x in __version__.split(\"+\")[0].split(\".\"))\n")],
    "r-plus-none": [["C27"], (P, "    if pieces[\"closest-tag\"]:\n        rendered = pieces[\"closest-tag\"]\n        if pieces[\"distance\"] or pieces[\"dirty\"]:\n            rendered += plus_or_dot(pieces)\n            rendered += \"%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n            if pieces[\"dirty\"]:\n                rendered += \".dirty\"\n    else:\n        # exception #1\n        rendered = \"0+untagged.%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])", "    if pieces[\"closest-tag\"]:\n        rendered = pieces[\"closest-tag\"]\n        if pieces[\"distance\"] or pieces[\"dirty\"]:\n            rendered += plus_or_dot(pieces)\n            rendered += \"%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])\n            if pieces[\"dirty\"]:\n                rendered += \".dirty\"\n    else:\n        # exception #1\n        rendered = \"0\" + plus_or_dot(pieces) + \"untagged.%d.g%s\" % (pieces[\"distance\"], pieces[\"short\"])", 1)],
    "r-date-kw": [["C27"], (P, "    date = keywords.get(\"date\")\n    if date is not None:\n", "    date = keywords.get(\"date\")\n    if date is not None:\n        if len(date.split()) != 3:\n            raise ValueError(\"bad date\")\n")],
    # C29
    "e-gitdir-kept": [["C29"], (P, "    env.pop(\"GIT_DIR\", None)\n", "")],
    "e-gitdir-required": [["C27"], (P, "    env.pop(\"GIT_DIR\", None)\n", "    env.pop(\"GIT_DIR\")\n")],
    "e-env-not-passed": [["C29"], (P, "    runner = functools.partial(runner, env=env)\n", "")],
    "e-env-one": [["C29"], (P, "runner(GITS, [\"show\", \"-s\", \"--format=%ci\", \"HEAD\"], cwd=root)", "run_command(GITS, [\"show\", \"-s\", \"--format=%ci\", \"HEAD\"], cwd=root)")],
    "e-env-alias": [["C22"], (P, "    env = os.environ.copy()\n", "    env = os.environ\n")],
    "e-env-empty-only": [["C29"], (P, "    env.pop(\"GIT_DIR\", None)\n", "    if not env.get(\"GIT_DIR\"):\n        env.pop(\"GIT_DIR\", None)\n")],
    "e-cwd-missing": [["C29"], (P, "runner(GITS, [\"rev-list\", \"HEAD\", \"--left-right\"], cwd=root)", "runner(GITS, [\"rev-list\", \"HEAD\", \"--left-right\"])")],
    "e-cwd-dir": [["C29"], (P, RUN, "runner(GITS, [\"rev-parse\", \"HEAD\"], cwd=os.path.dirname(__file__))")],
    "e-cwd-dropped": [["C29"], (P, "                cwd=cwd,\n", "                cwd=cwd if not hide_stderr else None,\n")],
    "e-shell": [["C29"], (P, "                [command] + args,\n                cwd=cwd,", "                \" \".join([command] + args),\n                shell=True,\n                cwd=cwd,")],
    "e-shell-win": [["C29"], (P, "        popen_kwargs[\"startupinfo\"] = startupinfo\n", "        popen_kwargs[\"startupinfo\"] = startupinfo\n        popen_kwargs[\"shell\"] = True\n")],
    "e-fetch": [["C29"], (P, "    describe_out, rc = runner(\n        GITS,", "    runner(GITS, [\"fetch\", \"--tags\"], cwd=root)\n    describe_out, rc = runner(\n        GITS,")],
    "e-refresh": [["C29"], (P, "    describe_out, rc = runner(\n        GITS,", "    runner(GITS, [\"update-index\", \"--refresh\"], cwd=root, hide_stderr=True)\n    describe_out, rc = runner(\n        GITS,")],
    "e-hg": [["C29"], (P, "        raise NotThisMethod(\"'git rev-parse --git-dir' returned error\")", "        out, rc = runner([\"hg\"], [\"id\"], cwd=root)\n        raise NotThisMethod(\"'git rev-parse --git-dir' returned error\")")],
    "e-cache-file": [["C29"], (P, "    pieces[\"branch\"] = branch_name\n", "    pieces[\"branch\"] = branch_name\n    with open(os.path.join(root, \".version\"), \"w\") as fh:\n        fh.write(full_out)\n")],
    "e-git-dir-set": [["C29"], (P, "    env.pop(\"GIT_DIR\", None)\n", "    env[\"GIT_DIR\"] = os.path.join(root, \".git\")\n")],
    "e-chdir": [["C22"], (P, "    _, rc = runner(\n        GITS, [\"rev-parse\", \"--git-dir\"]", "    os.chdir(root)\n    _, rc = runner(\n        GITS, [\"rev-parse\", \"--git-dir\"]")],
    "e-system": [["C29"], (P, "    _, rc = runner(\n        GITS, [\"rev-parse\", \"--git-dir\"]", "    os.system(\"git status >/dev/null\")\n    _, rc = runner(\n        GITS, [\"rev-parse\", \"--git-dir\"]")],
    "e-win-cmd": [["C29"], (P, "GITS = [\"git.cmd\", \"git.exe\"]", "GITS = [\"cmd.exe\", \"git.exe\"]")],
    # C30
    "o-git-first": [["C30"], (P, "    try:\n        return git_versions_from_keywords(\n            get_keywords(), cfg.tag_prefix, verbose\n        )\n    except NotThisMethod:\n        pass\n\n", ""), (P, "        return render(pieces, cfg.style)\n    except NotThisMethod:\n        pass\n", "        return render(pieces, cfg.style)\n    except NotThisMethod:\n        pass\n\n    try:\n        return git_versions_from_keywords(\n            get_keywords(), cfg.tag_prefix, verbose\n        )\n    except NotThisMethod:\n        pass\n")],
    "o-parent-first": [["C30"], (P, "    try:\n        pieces = git_pieces_from_vcs(cfg.tag_prefix, root, verbose)\n        return render(pieces, cfg.style)\n    except NotThisMethod:\n        pass\n\n", ""), (P, "            return versions_from_parentdir(cfg.parentdir_prefix, root, verbose)\n    except NotThisMethod:\n        pass\n", "            return versions_from_parentdir(cfg.parentdir_prefix, root, verbose)\n    except NotThisMethod:\n        pass\n\n    try:\n        pieces = git_pieces_from_vcs(cfg.tag_prefix, root, verbose)\n        return render(pieces, cfg.style)\n    except NotThisMethod:\n        pass\n")],
    "o-kw-error": [["C30", "C31"], (P, "    # no suitable tags, so version is \"0+unknown\", but full hex is still there\n", "    # no suitable tags\n    raise NotThisMethod(\"no tags\")\n")],
    "o-prefix-cfg": [["C30"], (P, "cfg.tag_prefix = \"v\"", "cfg.tag_prefix = \"\"")],
    "o-parent-cfg": [["C30"], (P, "cfg.parentdir_prefix = \"kalmankit-\"", "cfg.parentdir_prefix = \"kalmankit\"")],
    "o-root-two": [["C30"], (P, "cfg.versionfile_source = \"src/kalmankit/_version.py\"", "cfg.versionfile_source = \"kalmankit/_version.py\"")],
    "o-range2": [["C30"], (P, "    for _ in range(3):\n", "    for _ in range(2):\n")],
    "o-range4": [["C30"], (P, "    for _ in range(3):\n", "    for _ in range(4):\n")],
    "o-realpath": [["C30"], (P, "        root = os.path.realpath(__file__)\n", "        root = os.path.abspath(os.curdir)\n")],
    "o-lower": [["C30"], (P, "        if dirname.startswith(parentdir_prefix):", "        if dirname.lower().startswith(parentdir_prefix):")],
    "o-parent-in": [["C30"], (P, "        if dirname.startswith(parentdir_prefix):", "        if parentdir_prefix in dirname:")],
    "o-rc-ignored": [["C30"], (P, "    if rc != 0:\n        if verbose:\n            print(\"Directory %s not under git control\" % root)\n        raise NotThisMethod(\"'git rev-parse --git-dir' returned error\")\n", "")],
    # C31
    "k-reverse": [["C31"], (P, "    for ref in sorted(tags):\n", "    for ref in sorted(tags, reverse=True):\n")],
    "k-unsorted": [["C31"], (P, "    for ref in sorted(tags):\n        # sorting", "    for ref in tags:\n        # sorting")],
    "k-len": [["C31"], (P, "    for ref in sorted(tags):\n        # sorting", "    for ref in sorted(tags, key=len):\n        # sorting")],
    "k-nodigit": [["C31"], (P, "            if not re.match(r\"\\d\", r):\n                continue\n", "")],
    "k-anydigit": [["C31"], (P, "            if not re.match(r\"\\d\", r):\n", "            if not re.search(r\"\\d\", r):\n")],
    "k-allrefs": [["C31"], (P, "    if not tags:\n        # Either", "    if True:\n        # Either")],
    "k-startdigit": [["C31"], (P, "        tags = {r for r in refs if re.search(r\"\\d\", r)}\n", "        tags = {r for r in refs if re.match(r\"\\d\", r)}\n")],
    "k-nostrip": [["C31"], (P, "refs = {r.strip() for r in", "refs = {r for r in")],
    "k-lstrip": [["C31"], (P, "            r = ref[len(tag_prefix) :]\n", "            r = ref.lstrip(tag_prefix)\n")],
    "k-tag-strip": [["C31"], (P, "    tags = {r[len(TAG) :] for r in refs if r.startswith(TAG)}\n", "    tags = {r.lstrip(TAG) for r in refs if r.startswith(TAG)}\n")],
    "k-format": [["C31"], (P, "    if refnames.startswith(\"$Format\"):\n", "    if refnames.startswith(\"$Format:\") and refnames.endswith(\"$\") and len(refnames) > 20:\n")],
    "k-empty-declines": [["C31"], (P, "    if refnames.startswith(\"$Format\"):\n", "    if not refnames or refnames.startswith(\"$Format\"):\n")],
    "k-full-none": [["C31"], (P, "    return {\n        \"version\": \"0+unknown\",\n        \"full-revisionid\": keywords[\"full\"].strip(),", "    return {\n        \"version\": \"0+unknown\",\n        \"full-revisionid\": None,")],
    "k-swap-date": [["C31"], (P, "git_date = \"$Format:%ci$\"", "git_date = \"$Format:%ai$\"")],
    "k-full-abbrev": [["C31"], (P, "git_full = \"$Format:%H$\"", "git_full = \"$Format:%h$\"")],
    "k-split-space": [["C31"], (P, ".strip(\"()\").split(\",\")}", ".strip(\"()\").split()}")],
    "k-head-arrow": [["C31"], (P, "refs = {r.strip() for r in", "refs = {r.strip().split(\" -> \")[-1] for r in")],
}
