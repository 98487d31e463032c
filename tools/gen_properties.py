#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
C='projects/oak-core/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p('P01','Rope, chunked and flat sources are observationally identical',
 'A text held as a rope, as a stream of chunks or as one flat string answers every read inside the text (length, text of a range, character or byte at a character boundary, search for a character or string from a position, chunk lookup) identically, wherever the chunk boundaries fall. The chunks a source hands out tile the text without gap or overlap.',
 ['inputs','configurations'],'all texts, all chunk splits, all valid offsets and ranges',
 'Tests read a handful of ASCII texts; a character or a match that straddles a chunk boundary is never sampled.',
 [C+'source/rope.rs',C+'source/streaming.rs',C+'source/text.rs',C+'source/mod.rs'],
 [('chunk index lookup',C+'source/rope.rs'),('range gathering across chunks',C+'source/rope.rs'),('straddling search',C+'source/cursor.rs')])
p('P02','Reading cursors see exactly the characters of the text, in order',
 'A cursor over any source visits exactly the characters of the underlying text in order, its position is always the number of bytes consumed, and scanning (take-while, skip, match-ahead, search) consumes exactly the maximal run the predicate or literal describes. This does not depend on how the source is divided into chunks.',
 ['inputs','histories'],'all texts, all chunk splits, all sequences of cursor operations',
 'No test drives the cursor through arbitrary operation sequences over split multi-byte text.',
 [C+'source/cursor.rs',C+'lexer/mod.rs'],[('chunk cache and refill',C+'source/cursor.rs')])
p('P03','Applying edits yields the edited text and a sound changed region',
 'Applying a batch of non-overlapping edits to a document yields exactly the text obtained by replacing each range of the original, in any order the edits are listed. The affected region it reports covers every difference: text before and after it is unchanged.',
 ['inputs','histories'],'all documents, all valid edit batches, all representations (flat, rope)',
 'Tests apply one or two hand-written edits; batches, adjacency, empty edits, multi-byte text and chunk-boundary edits are not covered.',
 [C+'source/text.rs',C+'source/rope.rs'],[('edit application',C+'source/text.rs'),('rope edit',C+'source/rope.rs')])
p('P04','Vectorised byte scanning equals its scalar definition',
 'Every accelerated scan over bytes returns the same position as the one-byte-at-a-time definition, for any input length and alignment, and never reads outside the input.',
 ['inputs'],'all byte strings of the stated lengths (spanning the vector width)',
 'The vector body only runs at 32+ bytes; tests have a few fixed strings and cannot cover each lane and tail.',
 [C+'source/simd.rs'],[('lane mask and tail loop',C+'source/simd.rs')])
p('P05','Lexical scanners stop exactly where the token ends',
 'The shared scanners for strings, line and block comments, whitespace, numbers and identifiers emit a token covering exactly the text their grammar describes (escapes and nesting honoured), land on a character boundary, and leave the position untouched when they do not match. They terminate on every input, including unterminated tokens at end of file.',
 ['inputs','configurations'],'all texts, all scanner configurations',
 'Only a few well-formed literals are tested; unterminated, escaped-at-EOF and multi-byte contents are not.',
 [C+'lexer/scan_string.rs',C+'lexer/scan_comment.rs',C+'lexer/scan_white_space.rs',C+'lexer/mod.rs'],[('scanner configs',C+'lexer/mod.rs')])
p('P06','Lexing is total and lossless',
 'For every text, lexing terminates without crashing and the produced tokens tile the text: they start at 0, follow one another without gap or overlap, lie on character boundaries, and end with an empty end-of-file token at the end of the text.',
 ['inputs','configurations'],'all texts, for the language front ends named in the check',
 'Fixtures are well-formed files; malformed bytes, lone signs and unterminated tokens at EOF are unbounded.',
 [C+'lexer/mod.rs','examples/oak-json/src/lexer/mod.rs'],[('token emission and dead-lock guard',C+'lexer/mod.rs')])
p('P07','Incremental re-lexing equals lexing from scratch',
 'After any edit, lexing with the cached tokens of the previous version gives the same tokens as lexing the new text with no cache.',
 ['inputs','histories'],'all texts, all edits, repeated',
 'Two fixed edits are tested; reuse errors appear only for edits at particular token boundaries.',
 [C+'lexer/mod.rs',C+'parser/session.rs'],[('token reuse and restart point',C+'lexer/mod.rs')])
p('P08','Parsing is total and lossless',
 'Parsing any text terminates without crashing and yields a tree whose leaves, in order, are a prefix of the lexed tokens with their spans; text that is one complete document is covered to its end, and text that is not is reported as an error. Every reported error position lies within the text. Claimed for grammars built on the framework parser and for JSON.',
 ['inputs'],'all texts, for the language front ends named in the check',
 'Fixtures are mostly valid files and do not compare the tree with the text.',
 [C+'parser/state.rs',C+'builder/mod.rs','examples/oak-json/src/parser/mod.rs'],[('event sink and node completion',C+'parser/state.rs')])
p('P09','Incremental re-parsing equals parsing from scratch',
 'After any sequence of edits, re-parsing with the session of the previous version gives the same tree (kinds, spans, leaves) and the same diagnostics as a fresh parse of the new text.',
 ['inputs','histories'],'all texts, all edit sequences',
 'Tests check one edit shape; reuse bugs need particular edits at node boundaries or repeated edits.',
 [C+'parser/state.rs',C+'parser/session.rs',C+'parser/mod.rs'],[('subtree reuse check',C+'parser/state.rs'),('generation commit',C+'parser/session.rs')])
p('P10','Speculative parsing leaves no trace when it fails',
 'A speculative parse that fails leaves the parser where it was: same current token, same pending tree, no extra errors; one that succeeds has exactly the effect of parsing directly. Wrapping already-parsed content in a node later covers exactly the content since the mark.',
 ['histories','inputs'],'all sequences of parser operations over all token streams',
 'Only straight-line grammars are tested; nesting of speculation with node wrapping is not.',
 [C+'parser/state.rs'],[('checkpoint and restore',C+'parser/state.rs')])
p('P11','Operator precedence and associativity are respected',
 'For every operator table with left- or right-associative operators and every token stream, expression parsing groups operators by precedence and associativity exactly as the standard definition does, and consumes the longest valid expression.',
 ['inputs','configurations'],'all operator tables and expressions up to the stated size',
 'A few expressions with fixed tables are tested.',
 [C+'parser/pratt.rs'],[('binding power loop',C+'parser/pratt.rs')])
p('P12','Positioned tree views agree with the tree they describe',
 'In every tree, child spans partition the parent span in order, looking up an offset returns the leaf that contains it, and every traversal (children, pre-order walk, cursor moves) visits the same elements with the same spans, going up and down consistently.',
 ['inputs','histories'],'all tree shapes up to the stated size, all offsets, all cursor move sequences',
 'Tests use one or two small fixed trees.',
 [C+'tree/red_tree.rs',C+'tree/cursor.rs',C+'tree/green_tree.rs'],[('offset computation',C+'tree/red_tree.rs'),('cursor stack',C+'tree/cursor.rs')])
p('P13','Tree construction preserves content, length and structure on copy',
 'Every node reports the sum of the lengths of its leaves, and copying a tree into other storage gives a structurally equal tree (kinds, lengths, children) that no longer depends on the original storage.',
 ['inputs','histories'],'all tree shapes up to the stated size',
 'Only fixed small trees are built.',
 [C+'tree/green_tree.rs',C+'builder/mod.rs'],[('length computation',C+'tree/green_tree.rs'),('deep copy','%sbuilder/mod.rs'%C)])
p('P14','Arena memory: blocks are disjoint, aligned and intact until reset',
 'Every block handed out is correctly aligned, inside memory the arena owns, disjoint from all others and keeps its contents until the arena is dropped; dropping or recycling returns all memory exactly once.',
 ['histories','inputs'],'all sequences of allocations of the stated sizes and alignments',
 'Layout errors appear only at particular size and alignment combinations at chunk ends.',
 [C+'memory/arena.rs'],[('bump allocation and chunk growth',C+'memory/arena.rs'),('chunk recycling',C+'memory/arena.rs')])
p('P15','A parse session never exposes freed trees',
 'Across any sequence of parse attempts, successful or abandoned, every tree a session still offers as the previous result is readable and unchanged.',
 ['histories'],'all sequences of begin/commit/abandon/read steps up to the stated length',
 'Tests always commit every parse.',
 [C+'parser/session.rs',C+'memory/arena.rs'],[('double-buffered arenas',C+'parser/session.rs')])
p('P16','Byte offsets and line/column positions convert consistently',
 'Every byte offset at a character boundary converts to a line and UTF-16 column and back to itself; line starts are exactly the positions after newlines; offsets past the end and lines past the last one are clamped inside the text, a column past the end of its line is clamped to the end of that line before its terminator, and nothing crashes.',
 ['inputs'],'all texts, all offsets, all line/column pairs',
 'A few ASCII cases are tested; surrogate pairs, CRLF and out-of-range positions are not.',
 ['projects/oak-vfs/src/line_map.rs'],[('line start index and UTF-16 counting','projects/oak-vfs/src/line_map.rs')])
p('P17','The virtual file system behaves as a map from paths to contents',
 'After any sequence of writes and removals in the in-memory file system, through any of its handles, each path reads back the last content written to it, identifiers and paths correspond one to one and an identifier is never given to another path, the listing shows every existing file exactly once, and metadata matches the content.',
 ['histories'],'all operation sequences up to the stated length over colliding paths',
 'One linear scenario is tested.',
 ['projects/oak-vfs/src/vfs/memory.rs','projects/oak-vfs/src/lib.rs'],[('path and id tables','projects/oak-vfs/src/vfs/memory.rs')])
p('P18','The workspace symbol index equals the union of the latest file contents',
 'After any sequence of file updates, the symbols of a file are those of its latest update, looking up a qualified name finds a symbol exactly when some file currently declares one, and a query lists every currently declared symbol whose qualified name matches, independent of the order or repetition of updates.',
 ['histories'],'all update/remove sequences up to the stated length, with names shared between files',
 'One update of one file is tested.',
 ['projects/oak-resolver/src/lib.rs'],[('index maintenance','projects/oak-resolver/src/lib.rs')])
p('P19','Editor requests are answered within the document and never crash',
 'For any document and any offset, the symbols, references, definitions, renames and hovers a language service answers are exactly the ones the tree defines (each definition with its name, container and range; each occurrence of the name asked about), name ranges inside the document on character boundaries, and follow changes of the file; no request crashes the service. For JSON, the definitions and references of a key are all keys with the same text.',
 ['inputs','histories'],'all documents and positions up to the stated size',
 'Tests make one request on one fixed document each.',
 ['projects/oak-lsp/src/service.rs','projects/oak-folding/src/lib.rs','projects/oak-navigation/src/lib.rs','projects/oak-hover/src/lib.rs','projects/oak-symbols/src/lib.rs'],
 [('request dispatch','projects/oak-lsp/src/service.rs')])
p('P20','Diagnostics render for every source and point at the right place',
 'Rendering a diagnostic never crashes in any output format (plain text, terminal, HTML, language server), whatever its labels. For a label inside the source it prints the 1-based line and column (in characters) of the start, and shows the labelled line with carets under exactly the labelled characters (one caret for an empty label), or, for a label over several lines, every one of these lines with the end marked under its last character; message, help, code or severity and every label message appear. The language-server form gives zero-based UTF-16 positions of the label. A parse error is labelled at the character it names, or at the end of the source.',
 ['inputs','configurations'],'all sources, label ranges and formats up to the stated size',
 'A few single-line ASCII labels are tested.',
 ['projects/oak-diagnostic/src/lib.rs','projects/oak-vfs/src/line_map.rs'],[('snippet layout','projects/oak-diagnostic/src/lib.rs')])
p('P21','Exported markup and JSON are well formed and give the text back exactly',
 'Text placed in HTML (highlighted code, every text of a diagnostic) or in a drawing (labels, class names, attribute values) is escaped so that it can never be taken for markup: the output is well formed, with no attribute twice, and undoing the escaping yields the text exactly. The JSON exports of highlighted code and of layouts parse as JSON and give the same segments, styles, source and labels back.',
 ['inputs'],'all texts',
 'Tests check one fixed string.',
 ['projects/oak-highlight/src/exporters/mod.rs','projects/oak-diagnostic/src/lib.rs','projects/oak-visualize/src/render/mod.rs'],[('escape functions','projects/oak-highlight/src/exporters/mod.rs')])
p('P22','Highlighting covers the source exactly once, in order',
 'For every source, with or without a language, the highlighted segments are in order, non-overlapping and cover the source exactly, each with the text of its range; text the parser leaves out of its tree is kept. A scope gets the style of its longest dotted prefix that the theme defines, several scopes the deepest such style (the first one when equally deep), and otherwise the style "none".',
 ['inputs'],'all texts up to the stated size',
 'Tests highlight one fixed snippet.',
 ['projects/oak-highlight/src/highlighter/mod.rs'],[('segment assembly','projects/oak-highlight/src/highlighter/mod.rs')])
p('P23','Pretty-printing keeps content and obeys layout rules',
 'Rendering a document emits all its text in order. A group is printed flat exactly when it contains no hard break and every line it then touches, measured in characters from the current column, stays within the maximal width; otherwise its soft breaks become line breaks. Broken lines carry exactly the current indentation in the configured style; hard breaks always break; line ends follow the configuration; blanks before a line break and at the end are trimmed, and a final line break added, exactly when configured. (The element documented as a forced break but printed as a soft one, Document::Line, is left out.)',
 ['inputs','configurations'],'all layout documents up to the stated size, all widths and indent settings',
 'A few fixed documents are rendered.',
 ['projects/oak-pretty-print/src/document/printer.rs','projects/oak-pretty-print/src/document/mod.rs'],[('fits check and newline','projects/oak-pretty-print/src/document/printer.rs')])
p('P24','JSON values survive writing and reading back',
 'Every JSON value written as text and parsed again gives an equal value, and every string value reads back exactly the characters its literal denotes, including escapes and surrogate pairs. Blanks around tokens do not matter; a text that is cut short or continues after the value is rejected.',
 ['inputs'],'all values up to the stated size, all string contents',
 'A few fixed values are tested.',
 ['examples/oak-json/src/ast/mod.rs','examples/oak-json/src/builder/mod.rs','examples/oak-json/src/serde.rs'],[('string literal decoding','examples/oak-json/src/builder/mod.rs')])
p('P25','Search indexing extracts exactly the substantial elements of a document',
 'The chunks extracted for semantic search are exactly the definition, statement and documentation elements longer than 20 bytes, in document order, each with its range, its role and the text of that range.',
 ['inputs','configurations'],'all documents and settings up to the stated size',
 'One fixed document is chunked.',
 ['projects/oak-semantic-search/src/lib.rs'],[('chunk extraction','projects/oak-semantic-search/src/lib.rs')])
p('P26','Diagram layout is total and places every element once',
 'Laying out any graph or tree, also with cycles, self-loops and edges to unknown nodes, terminates without crashing, places every node exactly once with its own size, label and type at a finite position within the bounds, and keeps every edge between existing nodes, with its label, drawn from node to node. Nodes do not overlap in the circular, layered, grid and hierarchical layouts (at the default sizes); a layered layout of an acyclic graph puts the end of every edge below its start, and layered and compact trees put children below their parents. Connectivity, neighbours, degrees, tree sizes and depths agree with their definitions; cycles are reported exactly when there are any, and each reported cycle is one.',
 ['inputs','configurations'],'all small graphs (including cycles, self-loops, dangling edges) and all layout algorithms',
 'A few fixed acyclic graphs are laid out.',
 ['projects/oak-visualize/src/graph/mod.rs','projects/oak-visualize/src/layout/mod.rs','projects/oak-visualize/src/tree/mod.rs'],[('layering','projects/oak-visualize/src/graph/mod.rs')])
p('P27','Every line sent to the tool server gets exactly one well-formed reply when one is due',
 'Every request line to the tool server is answered, in order, by exactly one reply line carrying the request id and exactly one of a result and an error; tools with missing or mistyped arguments, unknown tools and unknown methods are errors. A nonblank line that is neither a request nor a notification gets an error reply (with its id if it has one); notifications and blank lines get none. No line, valid or not, crashes or stops the server.',
 ['inputs','histories'],'all request shapes up to the stated size',
 'One valid request is tested.',
 ['projects/oak-mcp/src/lib.rs'],[('dispatch','projects/oak-mcp/src/lib.rs')])
p('P28','Other language front ends lex any text completely',
 'The lexers of the configuration and data languages tile every text with tokens without gaps, overlaps or crashes, as the framework promises for all languages.',
 ['inputs'],'all texts up to the stated size per language',
 'Fixtures are a handful of valid files per language.',
 ['examples'],[('language lexers','examples/*/src/lexer/mod.rs')])
p('P29','Workspace folders and module resolution follow the folder changes',
 'After any sequence of folder additions and removals, the workspace lists exactly the present folders, assigns a file to the deepest folder containing it (by path components), and resolves a module beside the importing file first and then in the present folders only. A path and its file URI convert into each other exactly.',
 ['histories','inputs'],'all folder histories up to the stated length over colliding folders, all file names up to the stated length',
 'Tests add one folder and ask one question.',
 ['projects/oak-lsp/src/workspace.rs','projects/oak-resolver/src/lib.rs'],[('folder table and containment','projects/oak-lsp/src/workspace.rs'),('search roots','projects/oak-resolver/src/lib.rs')])
p('P30','The interactive prompt edits and submits exactly what was typed',
 'For every sequence of keys, whatever characters are typed, the texts the prompt hands to its handler are the ones the keys spell: characters are inserted before the cursor, Backspace removes the one before it (or joins the line to the previous one), the arrow keys move within the line, Enter submits text that is complete and otherwise starts an indented line, Ctrl-C empties the input, Ctrl-D leaves only when it is empty. The line shown is the edited one behind its prompt, with the cursor at its column. The session ends only when the handler or the user ends it or reading fails, and never crashes.',
 ['histories'],'all key sequences up to the stated length',
 'The line editor has no tests.',
 ['projects/oak-repl/src/lib.rs'],[('line buffer','projects/oak-repl/src/lib.rs'),('key loop','projects/oak-repl/src/lib.rs')])
p('P31','The formatter applies the right rule to every node and keeps the source and its comments',
 'Formatting a tree gives every node to the applicable rule with the highest priority (the one added first when equal) and otherwise prints its children in order; rules see the right depth, parent and enclosing kinds. A rule that conflicts with one already present is refused. With the built-in rules only blanks are added or lost, and the result is marked as changed exactly when it differs from the source. Comments are found exactly by position and range, keep their words, and are inserted only where they belong.',
 ['inputs','configurations'],'all trees and rule sets up to the stated size',
 'Tests format one or two fixed trees.',
 ['projects/oak-pretty-print/src/formatter/mod.rs','projects/oak-pretty-print/src/rules/mod.rs','projects/oak-pretty-print/src/comment/mod.rs'],[('rule selection','projects/oak-pretty-print/src/formatter/mod.rs')])
p('P32','Geometry of drawings obeys its definitions',
 'Rectangles contain exactly the points between their edges, meet exactly when they have a point in common, and their union is the smallest rectangle holding both; moving, growing, scaling and corner constructions keep what they must. A transformation maps points by its matrix, composing two applies one after the other, and identity, translations, scalings and quarter turns do what their names say.',
 ['inputs'],'all pairs over the listed coordinates',
 'A few fixed rectangles are tested.',
 ['projects/oak-visualize/src/geometry/mod.rs'],[('rectangle and transformation arithmetic','projects/oak-visualize/src/geometry/mod.rs')])
p('P33','What is written out reads back unchanged',
 'Every value that travels between a server and its clients or is stored through serde — token streams and their provenance, ranges, locations, text edits, hovers, folds, selections, symbols, outlines, diagnostics, semantic tokens, code chunks, themes, JSON-RPC responses — is the same value after it was serialised and deserialised, with every field, every nesting level and every enumeration member intact; requests written by a client are read with the numbers and names they carry; and the conversions between the location and symbol types of the different crates keep place, name and container.',
 ['inputs'],'all numbers of a field, short texts, every enumeration member',
 'No test serialises these types.',
 ['projects/oak-core/src/serde_range.rs','projects/oak-core/src/serde_arc_str.rs','projects/oak-core/src/lexer/mod.rs','projects/oak-lsp/src/types.rs','projects/oak-lsp/src/handlers.rs','projects/oak-diagnostic/src/lib.rs','projects/oak-mcp/src/lib.rs'],[('range serialisation','projects/oak-core/src/serde_range.rs'),('wire types','projects/oak-lsp/src/types.rs')])
p('P34','Files on disk behave as files',
 'A disk-backed file system reads and writes exactly the files its names stand for — a relative name beneath its root, an absolute one as it is: what was written is read back, with the right length, kind and modification time; directories on the way are made; a removed file is gone; nothing but the named file and the directories leading to it changes; files that are not text are not read; and listing a directory gives every entry once, under a name that can itself be looked up and read.',
 ['history','inputs'],'every short history of writes and removals over eight names',
 'No test uses the disk-backed file system.',
 ['projects/oak-vfs/src/vfs/disk.rs'],[('disk file system','projects/oak-vfs/src/vfs/disk.rs')])
p('P35','Templates build what is written in them',
 'A document written with the template macro is the document it spells out — every layout word, text, expression, nesting, sequence and separator-joined list in its place, whatever values stand in its holes; a type that derives its document gets the one its template, its single field or its member names; a formatting rule written with the rules macro has its name and priority and handles exactly the nodes and tokens its condition admits, as its body says; and a JSON value written with the JSON macro is that value, fields in order.',
 ['inputs'],'every form of a template, arbitrary short texts in its holes',
 'Tests expand a handful of templates with fixed contents.',
 ['projects/oak-macros/src/doc.rs','projects/oak-macros/src/to_doc.rs','projects/oak-macros/src/define_rules.rs','projects/oak-macros/src/json.rs','projects/oak-pretty-print/src/to_doc.rs','projects/oak-pretty-print/src/document/mod.rs'],[('template macro','projects/oak-macros/src/doc.rs'),('derived documents','projects/oak-macros/src/to_doc.rs')])
p('P36','Errors and diagnostics keep what they say',
 'An error holds the kind, text, place and file it was made with; a copy says the same, giving it a file changes the file only and works for every kind that has one. Its message names its kind and mentions its text, place and file. A diagnostic made of it has that kind as code and translation key, starts where the error is (inside the text) when it has a place, and carries its words as arguments; a report given a translator is the report of the translated message in every output format; and a diagnostic stored as JSON reads back the same.',
 ['inputs'],'every kind of error; arbitrary short texts, offsets and files','Tests print a few errors; they do not compare copies, files or translations.',
 ['projects/oak-core/src/errors/mod.rs','projects/oak-core/src/errors/display.rs','projects/oak-core/src/errors/from_std.rs','projects/oak-diagnostic/src/lib.rs'],[('errors','projects/oak-core/src/errors/mod.rs'),('diagnostics of errors','projects/oak-diagnostic/src/lib.rs')])
p('P37','Parser operations do what they say',
 'For any token stream, each operation of the parser state has exactly its described effect: looking at tokens (current, ahead, text, kind) changes nothing and sees the right token; advancing and skipping stop exactly where they should, with trivia kept in the tree; every reported error is recorded once, in order, with its kind, text, place and file; what the lexer reported comes first and everything is handed out at the end; a nested state sees the same tokens but leaves its parent alone, and its tree, copied or not, is taken in as it is; an optional or broken node is wrapped exactly when it should be. Roles decide what is trivia, error, root or end of input.',
 ['inputs','histories'],'token streams of 3 tokens, every sequence of 2 (thorough 3) operations','Tests drive the state through whole language parsers, which use few of its operations in few orders.',
 ['projects/oak-core/src/parser/state.rs','projects/oak-core/src/language/mod.rs'],[('parser state','projects/oak-core/src/parser/state.rs'),('roles','projects/oak-core/src/language/mod.rs')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
