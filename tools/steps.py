"""Text changes to a copy of the library: see refactorings.py for the kinds of steps."""
import ast
import os
import textwrap

KINDS = ("fn", "sub", "add", "cut", "new", "new0")


def node_of(tree, name):
    node = tree
    for part in name.split("."):
        node = next(n for n in node.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part)
    return node


def apply(root, steps):
    for step in steps:
        kind, path = step[0], os.path.join(root, step[1])
        text = open(path).read() if os.path.exists(path) else ""
        if kind == "fn":
            node = node_of(ast.parse(text), step[2])
            first = min([node.lineno] + [d.lineno for d in node.decorator_list])
            lines = text.split("\n")
            new = textwrap.indent(textwrap.dedent(step[3]).strip("\n"), " " * node.col_offset)
            text = "\n".join(lines[:first - 1] + new.split("\n") + lines[node.end_lineno:])
        elif kind == "sub":
            assert step[2] in text, (path, step[2])
            text = text.replace(step[2], step[3])
        elif kind == "add":
            tree = ast.parse(text)
            last = max(n.end_lineno for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom)))
            lines = text.split("\n")
            text = "\n".join(lines[:last] + step[2].split("\n") + lines[last:])
        elif kind == "cut":
            text = text[:text.index(step[2])]
        elif kind == "new":
            text = step[2]
        elif kind == "new0":
            text = step[2] + text
        with open(path, "w") as out:
            out.write(text)
