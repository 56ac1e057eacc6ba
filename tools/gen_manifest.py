#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/checks.json (the rules that evidence files quote)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TREE = ("Trees are drawn as small, medium, childless-node-heavy, duplicate-heavy (shared green data), long-token, wide and deep, in separate variants up to thousands of elements and with more than 2^16 children; "
        "and near-equal texts (common prefixes and suffixes); kinds include 0, 255/256 and 65535; text includes multi-byte, control and quote characters; roots are immutable, mutable from the start, "
        "or cloned for update; elements are reached by a random route. ")
HIST = ("Histories over up to four mutable trees and kept immutable ones: new trees, acquiring handles by random routes, dropping, cloning, detaching, splicing "
        "(fresh, detached, moved and foreign elements), detaching while iterating, snapshots, subtree copies, replacements. ")

# id: (technique, rule, note)
P = {
    "C01": ("model-based property testing: event sequences against an event interpreter",
            "Builder event sequences (tokens, nested nodes, checkpoints wrapped zero or more times, shared caches) and constructed sequences with more than 2^16 children. Non-trivial: a checkpoint is wrapped, or the tree is at least 3 deep.",
            "Every built tree is compared node by node with a model tree; text, kinds, order and lengths."),
    "C02": ("model-based property testing: random builder calls, valid and not, against a stack model",
            "Builder call sequences with stale, foreign-depth and valid checkpoints and unbalanced calls. Non-trivial: a call that must panic, or a checkpoint used after other events.",
            "The stack model says for each call whether it must panic and what is built otherwise."),
    "C03": ("metamorphic and model-based property testing: builds with and without a shared cache",
            "Several builds through one cache from small alphabets, with hash values steered to collide (constructed token texts). Non-trivial: at least two trees with at least 6 elements between them.",
            "Each tree must equal the model whatever the cache has seen before."),
    "C04": ("property testing: allocation identity against a table of values seen",
            "Builds through one cache with fillers that make it grow (in a variant, up to 300,000 other values in between) and steered hash values including 0. Non-trivial: a token and a small node seen before are built again.",
            "Equal (kind, text) and equal (kind, children) of up to three children must be the same allocation; others must not be shared."),
    "C05": ("property testing of algebraic laws: equality and hashing against structural equality of the models",
            "Pairs of green values: rebuilt by another route, changed in one place (kind, text, split, order, nesting), unrelated. Non-trivial: equal by another route or different in one place.",
            "Equality must be model equality; equal values must hash equally, also under interning collections."),
    "C06": ("model-based property testing: chains of edits against the same edits of a Vec",
            "Chains of replace/insert/remove/splice over every range form, with fresh, own and shared elements, and iterators that misreport their length. Non-trivial: the edited node has at least two children, or the iterator lies.",
            "After each edit the result equals the model, the original is unchanged."),
    "C07": ("model-based property testing: iterator scripts against VecDeque",
            "Scripts of next/next_back/nth/nth_back/len/size_hint/last/count/fold/clone over up to 70,000 children. Non-trivial: at least three children and calls from both ends.",
            "Each answer must be VecDeque's."),
    "C08": ("model-based property testing: ranges against text positions of a flattened model",
            TREE + "Constructed trees with more than 2^16 children too. Non-trivial: at least 4 elements.",
            "Ranges, also of elements reached through other elements, equal the positions in the model's text."),
    "C09": ("model-based property testing: every relation of an element against the flattened model",
            TREE + "Iterators are also asked, half-way through, for everything the standard library provides (nth, last, count, take, fold, size_hint, ...). Non-trivial: at least 4 elements.",
            "Parents, ancestors, children, siblings (both directions, by kind) equal the model's."),
    "C10": ("model-based property testing: token order against the model's leaf list",
            TREE + "Non-trivial: at least two tokens and four elements.",
            "first/last/next/previous token from every element, childless nodes in between."),
    "C11": ("model-based property testing: walks against the model's event list, with random skips",
            TREE + "Walks from random elements with skip_subtree after Enter events. Iterators are also asked, half-way through, for everything the standard library provides (nth, last, count, take, fold, size_hint, ...). Non-trivial: at least 4 elements.",
            "The events must be exactly those of the model walk."),
    "C12": ("stateful property testing: iteration scripts with handles kept, cloned and dropped",
            TREE + "Scripts of next/clone/by_kind/drop over children iterators with kept handles checked for disturbance. Iterators are also asked, half-way through, for everything the standard library provides (nth, last, count, take, fold, size_hint, ...). Non-trivial: more than five steps and a kept handle.",
            "Each yielded element and each kept handle equals the model's."),
    "C13": ("property testing: equality and hashing of handle pairs reached by different routes",
            TREE + "All pairs of a sample of handles, from several roots over shared and separate green data; and edit histories over trees full of shared green data, comparing all pairs of held handles after the edits; and places of one green element exactly a power of two (up to 2^25 bytes) apart. Non-trivial: at least 4 elements; in histories, two held handles share their green element and differ in offset.",
            "Equal exactly if same green data at the same offset; equal handles hash equally."),
    "C14": ("model-based property testing: token lookup at every offset against the model",
            TREE + "Every offset of the tree (a sample for long ones), from inner nodes too. Non-trivial: at least two tokens.",
            "The answer must be the one or two tokens that touch the offset, and their biased forms."),
    "C15": ("property testing: range lookup against the model and against brute-force search",
            TREE + "Ranges around token and node boundaries. Non-trivial: at least two tokens and four elements.",
            "The covering element is the deepest that contains the range; child_or_token_at_range contains it."),
    "C16": ("round-trip property testing: node to pointer to node",
            TREE + "Every node of the tree, childless ones and ones sharing ranges; resolved in the same, an equal and a changed tree; all pairs of pointers compared. Non-trivial: at least 4 elements.",
            "Resolves to a node of that kind and range; pointers are equal exactly if kind and range are."),
    "C17": ("model-based property testing: view operations against the operations of String",
            TREE + "Views, slices of slices, chars, find, contains, chunk iteration and folds. Non-trivial: at least two tokens and two bytes.",
            "Every answer must be the string's."),
    "C18": ("metamorphic property testing: the same text split in different ways",
            "Groups of views over the same text (different tokenisation, slices, empty tokens in between) and texts changed in one place, compared with each other and with strings. Non-trivial: some different views are equal and the text has two bytes.",
            "Equality in every direction is string equality."),
    "C19": ("model-based property testing: substitution in the model tree",
            TREE + "An element at any depth is replaced. Non-trivial: at least two levels below the root.",
            "The result equals the model with that element replaced; the tree replaced in is unchanged."),
    "C20": ("stateful model-based property testing of edit histories",
            HIST + "Non-trivial: at least two edits.",
            "All trees are compared with an ordered-tree model (content, structure, text, ranges)."),
    "C21": ("stateful model-based property testing: every handle after every edit",
            HIST + "In a variant, dozens of siblings of one node are held at once, taken in any order. Every held handle is checked, after every step in a third of the cases. Non-trivial: at least two edits.",
            "Each handle keeps denoting its element: content, place, relations, ranges, identity."),
    "C22": ("stateful model-based property testing of loops that detach",
            HIST + "Loops over the children of a node that detach the current or earlier elements, and whole-range splices. Non-trivial: something was detached during a loop.",
            "The loop yields exactly the children it would yield without detaching."),
    "C23": ("stateful metamorphic property testing: snapshots and copies against their state when taken",
            HIST + "Snapshots, subtree copies, clones for update and results of replace_with are kept and compared after every later edit. Non-trivial: at least two edits.",
            "Nothing kept ever changes, and no original changes through a copy."),
    "C24": ("property testing of rejection: every edit of an immutable tree must panic and change nothing",
            TREE + "Every editing operation on elements of immutable trees; mutability of every derived handle. Non-trivial: at least 4 elements.",
            "Rejected with a panic, tree unchanged, mutability as at creation."),
    "C25": ("stateful fuzzing under AddressSanitizer and exact allocation accounting",
            "The cases of every other single-threaded property, histories that keep iterators, walks, views and borrowed text across edits and rejected edits, and an API soup over the cursor layer with arbitrary drop orders; and, in child processes, 2^32 forgotten clones of one handle. Non-trivial: by the body's own rule (soup: an edit and two navigations).",
            "No sanitizer report, no damage to poisoned and red-zoned blocks, and a balance of exactly zero blocks and bytes once all is dropped."),
    "C26": ("concurrency fuzzing: threads with random scripts, natively, under ThreadSanitizer, and under Miri with many scheduler seeds",
            "2 to 4 threads (hammer: up to 8) each running a script of clone, drop, read, compare, hash, functional edit, wrap in a tree, edit a mutable tree, rebuild, hand over, on values all of them own. Non-trivial: at least four operations.",
            "Content equals the model at every read; no race report; every allocation released exactly once; handles are neither Send nor Sync. The interleavings are sampled, not enumerated."),
    "C27": ("round-trip property testing: JSON parsed by an independent reader",
            TREE + "Serialised nodes, tokens and elements. Non-trivial: at least four elements and two bytes of text.",
            "The parsed document equals the model: kinds, ranges, text, order."),
    "C28": ("model-based property testing against an independent formatter",
            TREE + "Debug (plain and alternate) and Display of all elements, token texts around the cut-off at every alignment of multi-byte characters. Non-trivial: at least 4 elements.",
            "The dump equals the formatter's output character for character."),
    "C29": ("differential property testing: typed layer against untyped layer",
            TREE + "Every method on both layers. Non-trivial: at least 4 elements.",
            "Answers are equal after mapping kinds."),
    "C30": ("model-based property testing: casts and helpers against a filter over the model",
            TREE + "Typed nodes covering several kinds, enums, helpers for children and tokens. Iterators are also asked, half-way through, for everything the standard library provides (nth, last, count, take, fold, size_hint, ...). Non-trivial: at least 4 elements.",
            "child/children/token return the first/all castable ones in order."),
    "C31": ("model-based property testing with 64-bit arithmetic over shared structure",
            "Trees of exact total length around 2^31, 2^32 and multiples, from doubling pieces shuffled and grouped at random, built by every route; navigation, slices, edits and replacements near the limit. Non-trivial: at least 2^31 bytes.",
            "Up to 2^32-1 bytes every length and offset is exact; beyond, construction panics, with and without overflow checks."),
    "C32": ("stateful fault-injection testing: rejected edits at random points of edit histories",
            HIST + "One step in four is an edit that is rejected: past the end, into the own subtree, of an immutable element, an iterator that panics, an iterator that edits. Non-trivial: at least one rejected edit.",
            "After each caught panic every handle is consistent with the tree it reports, uninvolved trees are unchanged, and later edits behave like the model's; part of the cases run under AddressSanitizer."),
    "C33": ("property testing: allocation identity of every element before and after each edit",
            TREE + "Chains of green edits, replacements at any depth, wrapping and copying, detaching and splicing in mutable trees. Non-trivial: at least 4 elements.",
            "Every element off the edited path must be the same allocation as before or as given; new allocations are counted."),
    "C34": ("stateful property testing: live allocations against the ancestor closure of the held handles",
            TREE + "Handles taken, cloned and dropped in any order; traversals with the peak of live allocations; edited trees taken apart handle by handle. Non-trivial: at least 4 elements (traversals: more elements than may be kept).",
            "Live allocations must equal the number of held elements and their ancestors (immutable trees: at most counted with repeats)."),
    "C35": ("metamorphic property testing of costs: the same generated shape at two sizes, basic blocks counted",
            "Wide, deep, branching trees and trees with a large part beside the edited one, built from a generated repeating pattern at sizes n and 64 n (n from 32 to 100, times the pattern's length), at a generated position; builds through caches; edits with and without handles to every child. All cases are non-trivial.",
            "Costs are basic blocks executed in rowan and its generic code plus allocated bytes, exact and repeatable; growth must be none, logarithmic or proportional as the property says, with a factor of 2 and a constant to spare."),
    "C36": ("property testing on a small stack: answers on generated chains thousands of levels deep",
            "Chains of 8,000 to 24,000 nested nodes (mutable: 2,000 to 3,000) with generated tokens around each level, two to five operations each, on a thread with 96 KiB (48 KiB) of stack. All cases are non-trivial.",
            "Each answer must be what the chain's generator knows; a stack overflow ends the process and is reported."),
    "C37": ("stateful model-based property testing: generated actions inside callbacks",
            HIST + "Between edits, calls that take callbacks (kind filters, visitors, sinks, serialisers, casts, element iterators); each time the callback runs it may navigate, take, clone or drop handles, edit any mutable tree, or panic. Non-trivial: a callback ran and edited, panicked, or worked on more than four elements.",
            "Answers equal the model's unless the tree itself was edited; after each call every handle is consistent and content is the model's; part of the cases run under AddressSanitizer."),
    "C38": ("stateful model-based property testing: builders over several caches with rejected and abandoned builds",
            "Rounds of builders side by side over one to four caches that live on, calls interleaved at random, misplaced calls caught, builds dropped half way or completed while unbalanced. Non-trivial: a build was completed after a rejected call or an abandoned build.",
            "Every completed build equals the model's and the same tree built alone; equal tokens and small nodes of one cache are one object; earlier trees stay unchanged; allocations balance."),
}

LEVEL = ("Random search over a fixed, seeded number of cases in an optimised build and in one with debug assertions and overflow checks; "
         "it finds violations, it does not prove absence. Trusts the model in harness/src/model.rs and the generators. ")
THREADS = ("Random search; the interleavings are those the operating system and Miri's scheduler produce, so absence is not established. ")


def main():
    checks, rules = [], {}
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    for p in props:
        i = p["id"]
        tech, rule, note = P[i]
        rules[i] = {"rule": rule, "assumptions": ["the reference model and the generators are right", "cases outside the generators' sizes behave like those inside"]}
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech,
            "level": "exploration",
            "level_note": note + " " + (THREADS if i == "C26" else LEVEL),
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks are used: everything is observed through rowan's public API. See DESIGN.md.",
    }
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    json.dump(rules, open(os.path.join(HERE, "tools", "checks.json"), "w"), indent=1)


main()
