"""Rewrite the table of planted bugs in DESIGN.md."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
#: what the check of the property did not notice at first
MISSED = {
    "C01d": "expressions that begin with a keyword (goal keyword)",
    "C01u": "message objects in all places",
    "C20u": "macros that are the default value",
    "C02v": "all surroundings (goal around)",
    "C03v": "all surroundings (goal around)",
    "C06v": "all surroundings (goal around)",
    "C07v": "all surroundings (goal around)",
    "C15v": "all surroundings (goal around)",
    "C17v": "all surroundings (goal around)",
    "C26w": "all surroundings (goal around)",
    "C15s": "message objects in the default content of slots",
    "C17s": "inserted text ending like markup",
    "C16s": "several outermost elements (goal roots)",
    "C03s": "several incomplete references (goal references)",
    "C07n": "handlers that fail themselves (goal handlers)",
    "C17o": "statements in markup that gets computed attributes",
    "C02i": "computed attributes that are translated (goal both)",
    "C12l": "code of several lines before the tag",
    "C26f": "macros, rendered with each of the options (goal macros)",
    "C25j": "errors that have a position of their own",
    "C06m": "code with statements (body code)",
    "C09h": "other prefixes (goal prefixes)",
    "C02d": "computed attributes with a prefix (goal prefixed)",
    "C05b": "conditions on the loop variable",
    "C05c": "omit-tag on elements of the TAL namespace",
    "C06c": "handlers on elements that write nothing; an error in the "
            "harness hid the result",
    "C06d": "attributes without value on elements with handlers",
    "C07c": "attributes without value in attrs",
    "C09d": "extensions of a macro that uses a third one (goal mixed), and "
            "the text of the expansion with extensions",
    "C11a": "further forms of character references",
    "C12e": "empty and void elements before a tag that may be wrapped",
    "C17d": "several insertions of the same markup (goal several)",
    "C14a": "references and other markup in units (goal marked)",
    "C20b": "renderings from within expressions (goal within)",
    "C21c": "macros that extend one that does not fit",
    "C23c": "names with hyphens",
    "C24c": "other attributes before the type",
    "C26c": "debugging (goal debug)",
    "C15c": "empty translations",
    "C16c": "prefixed elements under a default statement namespace",
    "C18a": "computed attributes that are not in the tag",
    "C19a": "macros and fillers whose own tag is not written",
    "C24a": "server-side code as macro, slot and filler (goal macros)",
    "C06f": "errors raised from other errors, and the identity of the error "
            "the handler is given (goal sorts)",
    "C08d": "a macro use in the filler of the second slot",
    "C09e": "special characters in translation statements",
    "C12f": "wrapping with the statements shown (goal shown)",
    "C17e": "computed attributes on a replaced element with translation",
    "C26d": "literal attributes computed as nothing",
    "C08e": "extensions inside other macros (goal nested)",
    "C10f": "white space with tags of any name (goal layers)",
    "C16f": "names with several colons (goal colons)",
    "C18g": "places after computed units",
    "C24d": "the attrs variable on script elements (goal attrs)",
    "C12g": "wrapping with the statements switched off (goal off)",
    "C13f": "a page without a name (goal nameless)",
    "C27e": "a very long tag",
    "C06h": "failures that are not ordinary exceptions",
    "C07g": "attribute names with capital letters",
    "C23f": "items that are not text",
    "C06i": "handlers of all kinds with markup on elements of the "
            "statement namespaces (goal handlers)",
    "C13g": "macros that fill the slots of macros of other files "
            "(goal between)",
    "C25h": "many open tags (goal nesting-many)",
    "C27f": "names of files the package has as well",
    "C28d": "names with the name of the folder in them",
    "C23j": "messages one after another (goal messages-again)",
    "C23k": "comment marks inside code",
    "C11c": "HTML processing instructions ending in white space",
}


def main():
    rows = []
    for bug in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", bug, "meta.json")) as f:
            meta = json.load(f)
        rows.append("| %s | %s | %s |" % (
            bug, meta["what_it_breaks"],
            "after adding " + MISSED[bug] if bug in MISSED else "at once"))
    text = """## 3. Planted bugs

Each passes the stable tests and is caught by the check of its property
(the first letters of its name), some only after that was extended.

| bug | what it breaks | caught |
|---|---|---|
%s

Besides, `tools/mutate.py` makes small changes of every expression and
statement of the code (some 3500); those that pass the tests are run on the
inputs recorded from all paths of all checks.  Those nobody noticed were read
one by one, and the behaviour they change was added to the checks.

""" % "\n".join(rows)
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        design = f.read()
    design = re.sub(r"(?s)(## 3\. Planted bugs\n.*?|SEEDED\n)(?=## 4\.)",
                    lambda m: text, design)
    with open(path, "w") as f:
        f.write(design)


if __name__ == "__main__":
    main()
