#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (keeps the two in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/parser.rs"
INP = ["inputs", "configurations"]

def prop(id, title, statement, over, qtext, tests, mech, note, files=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, mech=mech, note=note,
                files=files or [P], observe=observe or ["Doc::parse", "DocHolder::render"])

PROPS = [
prop("C01", "No input makes the library panic, abort or hang",
 "For every string and every combination of parse options, parsing returns a document or an error and never panics, overflows or loops. On every document that parsing returns, rendering (any options), rendering of every single node, text extraction, cloning, debug printing, id lookup and the document test return normally, except for the documented misuses (inner html/text of a node or root that has none, both modes at once).",
 INP, "all strings x all 64 parse option sets x render options, with nesting within the thread's stack",
 "The tests parse some 150 hand-written snippets; crashes sit at the ends of the source inside of constructs and in combinations of recovery options the tests never combine.",
 [("parse_* handlers, eof", P), ("Node::build_tree, clone_node_with", P)],
 "Nesting up to 10000 levels on a large stack; on a default stack 400 levels must work and 200000 levels are a known finding (recursion)."),
prop("C02", "Well-formed markup parses to exactly the tree it spells",
 "A well-formed document is accepted, and the resulting tree contains exactly the elements, texts, comments, doctypes, CDATA sections and raw-text elements of the source, in source order, with the nesting of the tags, with the names, attributes, contents and end tag spellings as written. Whitespace-only text is told apart from other text: it is text if it is everything an element contains, otherwise it is spaces between tags.",
 INP, "all documents",
 "Tests check a few fields of a few small trees; the tree depends on the whole history of the character automaton.",
 [("add_new_node, chain_nodes", P), ("set_text_spaces_between, check_textnode", P)],
 "Trees are built twice independently: by construction (source generated together with its tree) and by the reference model."),
prop("C03", "Rendering with default options reproduces the source",
 "Rendering a parsed document with default options gives back the source character by character, except that inside of a start tag or doctype the attributes are separated by exactly one space, no spaces stand around '=' or before '>', and a self-closing slash (not of a doctype) is written ' /'. The output of the recovery options is rendered the same way: added end tags are written, dropped end tags are not, a repaired '<' is written '&lt;'.",
 INP, "all accepted documents x all parse option sets",
 "Tests compare the rendering for a few dozen snippets.",
 [("Node::build_node, Attr::build", P)],
 "Judged end to end from the source, via an independently written renderer over the model's tree, and against the literal source for generated canonical documents."),
prop("C04", "The rendering parses back to the same document",
 "The default rendering of any parsed document is accepted again without any recovery option, gives an equivalent tree (same elements, attributes with values and quotes, contents, end tags and nesting), and renders to the identical string. This includes documents that needed repairs.",
 INP, "all accepted documents x parse option sets without keys that start with '='",
 "No test parses a rendering again.",
 [("Node::build_tree", P), ("Doc::parse", P)],
 "Model-free: the code is compared with itself. Neighbouring texts are merged before comparing."),
prop("C05", "A source is accepted if and only if it is well-formed",
 "With no recovery options a source is rejected exactly if it contains a '<' that starts no tag or declaration, an end tag that does not match the innermost open element, a self-closing element that is neither void nor inside svg/math nor allowed by option, an attribute key starting with '=' (unless allowed), a malformed declaration or misplaced CDATA, an end tag in other case under the case-sensitive option, or anything left open at its end. Each recovery or leniency option lifts exactly its own kind of rejection and no other; everything else is accepted.",
 INP, "all strings x all 64 parse option sets",
 "Tests have about 60 accept/reject examples, mostly with a single option.",
 [("parse_unkown_tag, parse_tagend, parse_exclamation_begin, eof", P)],
 "Acceptance is compared with the reference model in both directions."),
prop("C06", "Leniency options never change documents that need none",
 "If a source is accepted, then switching on any further combination of the leniency and recovery options (attribute keys starting with '=', self-closing, unclosed tags, unexpected end tags, unescaped '<') leaves it accepted with an identical tree, positions and rendering.",
 INP, "all accepted documents x all supersets of the options",
 "Tests never parse the same source under two option sets and compare.",
 [("auto_fix_* branches", P)],
 "Model-free differential check of the code with itself under up to 31 further option sets."),
prop("C07", "Recovery of unclosed tags equals appending what is missing",
 "With recovery of unclosed tags on, a source that ends with elements still open or inside of a start tag gives the tree and rendering of the same source with the missing characters (closing quote, '>', end tags with the names as written, innermost first) appended. Exactly the elements so closed are marked as auto-fixed; a source that ends inside of a raw-text element, comment, declaration or end tag stays an error.",
 INP, "all strings x option sets with the recovery on",
 "Tests cover a handful of unclosed snippets; every place of a document is a possible end of the source.",
 [("eof, fix_unclosed_tag, fix_unfinished_tag", P)],
 "The code on s is compared with the code on s + completion, and with the model."),
prop("C08", "Recovery of unexpected end tags equals deleting them",
 "With recovery of unexpected end tags on, every end tag that does not match the innermost open element is dropped without any other effect: the tree is the same as that of the source with exactly those end tags deleted, including the text around them, which is joined to one text. End tags that do match are never dropped.",
 INP, "all strings x option sets with the recovery on",
 "Tests cover three stray end tags.",
 [("parse_tagend, parse_wait", P)],
 "The code on s is compared with the code on s without the stray end tags, and with the model."),
prop("C09", "Recovery of an unescaped '<' equals writing '&lt;'",
 "With recovery of unescaped '<' on, every '<' that starts no tag or declaration becomes the text '&lt;' at its place in the innermost open element: the tree is the same as that of the source where exactly those characters are written '&lt;'. What follows such a '<' is parsed as usual.",
 INP, "all strings x option sets with the recovery on",
 "Tests cover a few such characters in plain text.",
 [("fix_unescaped_lt", P)],
 "The code on s is compared with the code on the escaped source, and with the model."),
prop("C10", "Attributes are read exactly as written",
 "For every start tag and doctype, the attributes appear in source order with exact key, value and quote character; a key without '=' has no value, an unquoted value extends to the next whitespace or '>', a quoted one to the matching quote and may contain anything else, whitespace around '=' is allowed, and a slash between attributes separates like a space. The case-insensitive name index leads from each lower-cased key to the first attribute with that key.",
 INP, "all attribute lists",
 "Tests check a few attribute lists; keys, values, quotes, spaces, slashes and ends combine freely.",
 [("parse_tag_wait, parse_tag_attr_key, parse_tag_attr_value", P), ("lc_name_map", P)],
 "Reference model of the attribute grammar, exhaustive over short attribute lists."),
prop("C11", "Raw-text elements hold their text verbatim up to their end tag",
 "The content of script, style, title and textarea (any letter case, anywhere in the document) is the exact source text up to the first '</' + same name + optional whitespace + '>', with the name matched regardless of case unless the case-sensitive option is on; nothing inside it is taken for markup. The end tag keeps its spelling, and parsing continues normally behind it.",
 INP, "all raw-text contents",
 "Tests have a few scripts and titles; near-misses of the end tag are unbounded.",
 [("parse_content_tag, check_tag_type_do", P)],
 "Reference model, exhaustive over token sequences that build near-misses of end tags."),
prop("C12", "Comments, doctypes and CDATA sections are delimited exactly",
 "A comment's content is the exact text between '<!--' and the first '-->' behind it, a CDATA section's the text between '<![CDATA[' and the first ']]>', whatever they contain; a doctype (keyword in any case, followed by whitespace) holds its words and quoted strings and may contain '>' inside of quotes. CDATA is accepted only inside of elements within svg or math; any other '<!' is an error; none of them opens or closes an element.",
 INP, "all declarations in all contexts",
 "Tests have a few examples of each.",
 [("parse_exclamation_begin, parse_comment_or_cdata, parse_doctype_name", P)],
 "Reference model, exhaustive over declaration bodies."),
prop("C13", "Tag names match regardless of ASCII case unless case-sensitive",
 "By default an end tag closes the innermost open element exactly if the names are equal up to ASCII letter case (trailing whitespace ignored), and special names (void, raw-text, svg/math) are recognised in any ASCII case; non-ASCII characters are never folded. With the case-sensitive option an end tag whose name differs only in case is an error (for raw-text elements: is content). The names are stored as written.",
 INP, "all pairs of start and end tag spellings x option sets",
 "Tests have a few mixed-case tags.",
 [("is_equal_chars_ignore_case, is_equal_chars", P)],
 "All case variants of short names crossed pairwise."),
prop("C14", "Void, self-closing and svg/math elements are delimited correctly",
 "The 14 void elements (area base br col embed hr img input link meta param source track wbr) never have content or an end tag and may be written with or without a slash; no other element is void. A self-closed element is accepted exactly if it is void, the option allows it or it is inside an svg or math element, and then it has no content; the svg/math scope lasts from the outermost svg/math start tag to its own end tag.",
 INP, "all element names and nestings",
 "Tests cover a few void and svg elements.",
 [("VOID_ELEMENTS, is_void_tag", P), ("in_special", P), ("parse_tag_self_closing", P)],
 "464 names with case variants and near misses x 37 document shapes, plus all svg/math nestings up to the depth."),
prop("C15", "Every parsed tree has consistent links",
 "In every parsed document each child's parent link leads to the node that lists it, its index is its place in that list, its root link leads to the document root, and no node is listed twice; the root has no parent and links to its document, which keeps the options it was parsed with. Only elements have children or an end tag; every element that is neither void nor self-closed has an end tag node which belongs to it.",
 INP, "all accepted documents x all parse option sets",
 "Tests never check links systematically.",
 [("add_new_node, fix_unescaped_lt, fix_unclosed_tag, into_root", P)],
 "Invariant over every node of every explored tree."),
prop("C16", "Source positions of nodes are exact and tile the source",
 "Every node's begin and end are the character offsets of its markup in the source (for elements of the start tag, the end tag has its own), so that in source order the spans of start tags, contents and end tags cover the source without gaps or overlaps; the root spans the whole source. Repairs keep the positions of everything that is in the source; added end tags stand at the end of the source.",
 INP, "all accepted documents",
 "No test checks positions.",
 [("begin_at, end_at, set_tag_end_info, mem_position", P)],
 "Tiling is checked without the model where nothing was dropped or replaced, and against the model everywhere."),
prop("C17", "Lookup by id finds exactly the elements that carry the id",
 "Looking up a string returns a node if and only if some tag of the document has an id attribute (name in any ASCII case) with exactly that value, and the node returned is one of the nodes of the tree that carries it. Strings that only occur in other attributes, texts, comments or raw text are not found.",
 INP, "all accepted documents x all strings looked up",
 "Tests look up one or two ids.",
 [("id_tags, check_if_id, get_element_by_id", P)],
 "Every attribute value, key and content of the document is looked up."),
prop("C18", "Errors name the right problem at the right place",
 "A rejected source gives a parse error of the kind that describes its first problem, located at the offending character (for unmatched or differently-cased end tags and forbidden self-closing: the closing '>'; for a bad '<' or declaration: its '<', for misplaced CDATA its '['; for unclosed elements: the begin of the innermost open one). Where the error is about a tag (an unmatched or differently-cased end tag, forbidden self-closing, an unclosed element), it and its message carry the tag's name as written. Index, line and column agree with each other: the line counts the line breaks (LF, CR, CRLF as one) up to and including that character, and the column counts the other characters since the last one.",
 INP, "all rejected strings x option sets",
 "Tests check for most errors only that there is one.",
 [("create_parse_error, CodeRegion::from_context_index", "src/position.rs"), ("ErrorKind", "src/error.rs")],
 "Kinds and places from the model; line and column recomputed from the index independently.",
 files=[P, "src/position.rs", "src/error.rs"], observe=["Doc::parse -> Err(ParseError)", "Display of the error"]),
prop("C19", "Parsing a file equals parsing its content",
 "Parsing a file, given by absolute or relative path, gives the same document or the same parse error as parsing its content as a string, whatever its size, line breaks and characters. A file that cannot be read or is not valid UTF-8 gives an error that is no parse error, never a panic or a document.",
 ["inputs", "configurations", "fault_sequences"], "all file contents, path forms and read failures",
 "Tests read one small file.",
 [("Doc::parse_file", P)],
 "Files live in a scratch directory of the check; faults explored: missing file, missing directory, directory instead of file, empty path, every short non-UTF-8 byte sequence.",
 observe=["Doc::parse_file"]),
prop("C20", "Whitespace minification changes only insignificant whitespace",
 "Rendering with minified spaces equals the normal rendering except that, outside of pre elements, spaces between tags are dropped and every run of whitespace in a text is reduced to its first character. Everything inside of pre (also nested ones, any case), raw-text elements, comments, attributes and tags stays as it is, and the effect of pre ends with its own end tag; non-ASCII spaces are not whitespace.",
 INP, "all accepted documents",
 "Tests minify a few snippets.",
 [("Node::build_node minify branches, is_in_pre", P)],
 "Independent renderer over the model's tree, plus a model-free check that only whitespace disappears."),
prop("C21", "Tag render options do what they say, and only that",
 "In every combination, lowercasing changes only the ASCII letters of tag names, trimming only the whitespace at the end of end tags, comment removal only drops comments, void closing adds ' /' to void elements exactly, and quote removal omits the quotes of an attribute value exactly if the value is nonempty, has a key and contains no whitespace, quote, '<', '>', '=' or '`'. The output still parses to the same document up to these changes.",
 INP, "all accepted documents x all 32 combinations of the options",
 "Tests try single options on single snippets.",
 [("Node::build_node, Attr::build, need_quoted_char", P)],
 "All 32 combinations per document; the output is also parsed again and compared. The second parse skips documents with CDATA under lowercasing (their acceptance depends on the case of names)."),
prop("C22", "Inner html and text are exactly the parts of the node",
 "The inner html of an element is its html without its own start and end tag; its text is the concatenation of the texts, raw texts and CDATA contents below it without tags, comments and doctypes; a comment's or CDATA section's own text is its content. For the document the only top-level element is taken (empty for an empty document), and asking for it where there is none or more than one, for other kinds of nodes, or for both modes at once is refused with a panic.",
 INP, "all nodes of all accepted documents x render options",
 "Tests ask for inner html and text of a few elements.",
 [("Node::build, RenderStatus", P)],
 "Every node of every explored document, in all modes and five option sets.",
 observe=["Node::build", "DocHolder::render", "DocHolder::render_text"]),
prop("C23", "Entity decoding and encoding are exact",
 "With entity decoding, exactly the valid named and numeric character references of texts are replaced by their characters and everything else stays; raw text, attributes, comments and CDATA are not decoded. With content encoding, exactly the characters '&', '<' and '>' in the content of title and textarea (any case) are replaced by references, so that decoding them gives the content back; nothing else changes.",
 INP, "all accepted documents",
 "Tests decode and encode a few entities.",
 [("decode_chars, write_content_encode", P)],
 "The named table of the htmlentity dependency is trusted; syntax, numeric references and common names are modelled independently."),
prop("C24", "Clones are complete, detached and independent",
 "A clone of any node has the same type, name, attributes, contents, end tags and descendants, renders identically under all options, and its positions are those of the original relative to its begin; inside of it parent links and indexes are consistent, and it is attached to nothing. Changing or dropping either side never changes the other.",
 ["inputs", "histories"], "all nodes of all documents x changes afterwards",
 "Tests clone one node.",
 [("clone_node, clone_node_with, clone_node_without_childs, impl Clone", P)],
 "Every node is cloned, compared, then everything reachable in the clone is changed and the original compared again, and vice versa.",
 observe=["Node::clone_node", "Clone for Node"]),
prop("C25", "The document test recognises html documents",
 "The root of a parse result is an html document exactly if one of its top-level elements is named html (any ASCII case); its syntax is ok exactly if, in that case, this is the only top-level element and everything else at top level is a comment, doctype or whitespace. If it is no document, and for all other nodes, the answer is (false, true).",
 INP, "all top-level sequences",
 "Tests have a few documents.",
 [("is_document", P)],
 "All sequences of up to 5 top-level parts out of 16.",
 observe=["Node::is_document"]),
prop("C26", "Using a document never changes it or any other result",
 "Parsing, rendering, text extraction, cloning, id lookup, changing clones and dropping documents are free of side effects: after any sequence of them on any documents, every document, its nodes, positions and links are as after parsing, and every operation returns the same as on a freshly parsed document. Nodes stay valid and render the same after their document is dropped.",
 ["histories", "inputs"], "all operation sequences on documents",
 "Tests do one or two operations per document.",
 [("Node::build (&self)", P), ("lazy_static tables", P)],
 "All histories of up to 3 of 18 operations on 11 documents, pairs of alike sources, long repetitions, and fixed histories on exhaustively enumerated documents.",
 observe=["all public operations"]),
prop("C27", "Public helper functions implement their definitions",
 "For every character: it is a noncharacter exactly if it is U+FDD0..U+FDEF or ends in FFFE/FFFF; it is allowed in keys exactly if it is an ASCII letter or digit, one of '_-.:', or a non-ASCII character that is no noncharacter; in unquoted values unless it is ASCII whitespace, NUL, a quote, '<', '>', '/', '=' or '`'; it requires quotes exactly if ASCII whitespace, a quote, '<', '>', '=' or '`'. For every name, insertion of a node type is allowed except into void elements, non-text into title/textarea and CDATA outside of svg/math (names in any case); text nodes are created with their content, as spaces exactly if all ASCII whitespace; a new node is empty, unattached and stands where it is told; two handles are the same node exactly if they are handles of one node; the attribute methods add to the end of the attribute list or change its last entry, and nothing else.",
 INP, "all 1,112,064 characters; all case variants of the special names; short texts and attribute values",
 "Tests call some of them with a few characters.",
 [("is_non_character, is_char_available_in_key, is_char_available_in_value", "src/util.rs"), ("allow_insert, is_content_tag, create_text_node, Attr::build", P)],
 "Exhaustive over all of Unicode.",
 files=["src/util.rs", P], observe=["util::*", "parser::allow_insert", "Node::create_text_node", "TagMeta::set_attr_value", "Attr::build"]),
prop("C28", "Edited trees render as edited",
 "After any sequence of edits to a parsed tree through its public fields and methods (adding, removing, moving and replacing children, changing contents, names and attributes, inserting clones and created text nodes), rendering the document or any node reflects exactly the current tree. Rendering in between does not matter.",
 ["histories", "inputs"], "all edit sequences on documents",
 "Tests do not edit trees.",
 [("Node::build_tree", P), ("TagMeta::set_attr_key, set_attr_value", P)],
 "All sequences of up to 4 of 11 edits on 11 documents, judged by the independent renderer on a snapshot of the edited tree.",
 observe=["Node::build", "DocHolder::render"]),
prop("C29", "Dropped documents are released completely",
 "When a document and all handles to its nodes, clones and lookup results have been dropped, all its nodes and all memory that parsing and using it took are released; the same holds for rejected sources. A node that is still held keeps exactly itself and what is below it alive. Parsing, rendering, cloning and dropping the same source again and again does not accumulate memory.",
 ["inputs", "histories"], "all strings x parse options",
 "No test looks at what is left; a reference cycle or a growing table changes no result.",
 [("parent, root, document as Weak; childs, end_tag as Rc", P), ("into_root, id_tags", P)],
 "Judged with weak references to every node and a counting allocator around repeated runs.",
 observe=["Doc::parse", "Weak::upgrade", "global allocator"]),
prop("C30", "Memory use is proportional to the source",
 "The peak memory taken for parsing a source, for rendering the document and for cloning it grows at most linearly with the size of the source: repeating parts of a document twice as often takes about twice the memory, whatever the parts are and whether the source is accepted, repaired or rejected.",
 ["inputs", "configurations"], "all periodic sources x parse options",
 "Tests use small inputs and measure nothing.",
 [("set_tag_meta, add_new_node, fix_unescaped_lt", P), ("Node::build, clone_node_with", P)],
 "Decided on all sources of the form prefix + word^n + suffix for words of up to 2 (3) tokens, n = 96, 192, 384, with a counting allocator; a factor of 3 per doubling is allowed for buffers.",
 observe=["global allocator"]),
]

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

man = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "technique": "explicit-state model checking: exhaustive bounded enumeration of executions of the real code against a reference model" if p["id"] not in ("C04", "C06", "C15")
                     else "stateless model checking: exhaustive bounded enumeration of executions of the real code against an invariant",
        "level": "model_checking",
        "level_note": p["note"] + " Exhaustive within the alphabets, depths and sizes listed in the evidence file's 'spaces'; nothing is claimed beyond them.",
    } for p in PROPS],
    "not_applicable": [],
    "notes": "No hooks: everything is observed through the crate's public API, so /repo carries only 'fix:' commits (known_findings.txt).",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
