"""Texts of the properties: properties.jsonl and MANIFEST.json are generated from here by mkdocs.py."""

PROPERTIES = []


def P(id, title, statement, over, quant, why, files, mech, state=None, observe=None, level_note=None, na=None):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                           state=state or [], observe=observe or [], level_note=level_note, na=na))


P('C01', 'Comment directives are recognised exactly in their documented spelling',
  'A comment is a formatting directive exactly when, after its leading `#` characters and the white space that follows them, the text up to the first `:` is '
  '`fmt` and the rest, trimmed of white space, is `skip`, `skip file` or `table`; it then asks for exactly that behaviour, and every other text, whatever characters it '
  'contains, is no directive and causes no failure. A comment marks a generated file (to be left alone as a whole) exactly when its text, after the leading `#` '
  'characters and white space, starts with `Generated by`.',
  ['inputs'], 'all comment texts (any Unicode)',
  'The tests list about thirty spellings; a near miss (an extra character, other white space, a multi-byte character next to the marker, a second `:`) is not among them.',
  ['crates/comments/src/directive.rs'],
  [dict(name='directive parsing', where='crates/comments/src/directive.rs: parse_comment_directive, parse_special_skip_file')],
  observe=['comments::parse_comment_directive', 'comments::parse_special_skip_file'])

P('C02', 'Line ending normalisation removes the \\r of every \\r\\n and nothing else',
  'Normalising a text to Unix line endings yields the text with the `\\r` of every `\\r\\n` pair removed and every other character, including lone `\\r`, multi-byte characters '
  'and a missing final newline, unchanged and in order; the result is valid UTF-8. The borrowing and the owning form agree for every text.',
  ['inputs'], 'all UTF-8 texts',
  'The in-place compaction works on raw bytes with offsets; the tests have a handful of texts, while an off-by-one shows for particular positions and numbers of `\\r\\n`.',
  ['crates/line_ending/src/lib.rs'],
  [dict(name='in-place compaction', where='crates/line_ending/src/lib.rs: normalize, normalize_ref')],
  observe=['line_ending::normalize', 'line_ending::normalize_ref'])

P('C03', 'Automatic line endings follow the first line ending of the file',
  'With automatic line endings (the default) a file is written with the line ending that occurs first in it, `\\r\\n` or `\\n`, and with `\\n` when it has none; a `\\r` not '
  'followed by `\\n` does not count. An explicit setting wins whatever the file contains: `lf` always gives `\\n`, `crlf` always `\\r\\n`, `native` the platform\'s.',
  ['inputs', 'configurations'], 'all file contents and all four settings',
  'The tests look at uniform files; mixed files, lone `\\r` and the position of the first line ending range over all texts.',
  ['crates/line_ending/src/lib.rs', 'crates/workspace/src/settings/line_ending.rs', 'crates/workspace/src/settings.rs'],
  [dict(name='detection', where='crates/line_ending/src/lib.rs: infer'), dict(name='finalisation', where='crates/workspace/src/settings/line_ending.rs: finalize')],
  observe=['line_ending::infer', 'FormatSettings::to_format_options'])

P('C04', 'Every path is resolved to the settings of its nearest configured ancestor',
  'After any sequence of additions, replacements and removals of directory settings, resolving a path gives the settings of the closest configured directory which is the path or one of '
  'its ancestors (compared by whole path components, so `/a/b` never captures `/a/bc`), and the fallback when there is none. Adding and removing report what they replaced, '
  'only the latest value of a directory counts, and enumerating the matches of a path yields exactly its configured ancestors.',
  ['inputs', 'histories'], 'all sequences of add/remove over all paths, and all queried paths',
  'The tests resolve a few fixed paths; sibling names sharing a prefix and sorting between a parent and its child, and removal in between, need particular combinations.',
  ['crates/workspace/src/resolve.rs'],
  [dict(name='sorted directory list, searched from the end', where='crates/workspace/src/resolve.rs: PathResolver')],
  state=[dict(name='items', meaning='one entry per configured directory, sorted by path', where='crates/workspace/src/resolve.rs')],
  observe=['PathResolver::resolve', 'PathResolver::resolve_or_fallback', 'PathResolver::matches', 'PathResolver::add', 'PathResolver::remove'])

P('C05', 'Exclude and include patterns select exactly the documented files',
  'User exclude patterns follow the documented .gitignore rules relative to the directory of their air.toml: a pattern without a slash (other than a trailing one) applies at any depth, one with a leading or middle slash only from that directory, '
  'a trailing slash restricts it to directories, `*` and `?` stay within a path component and `**` spans any number of them. A path counts as excluded when a pattern matches it or one of its parent directories below that directory (never the '
  'directory itself). By default exactly directories named .git, renv or revdep and what they contain, and entries named cpp11.R, RcppExports.R, extendr-wrappers.R or import-standalone-*.R, are excluded, at any depth and however the path is '
  'rooted; a file is included exactly when its name ends in .R or .r. An invalid pattern is an error, never a crash.',
  ['inputs', 'configurations'], 'all patterns and lists of patterns, all paths below the root, files and directories',
  'The tests try some forty pattern and path pairs; which component a pattern meets, near misses of the default names and parents up to the root vary over all of them.',
  ['crates/workspace/src/file_patterns.rs', 'crates/workspace/src/settings/exclude_patterns.rs', 'crates/workspace/src/settings/default_exclude_patterns.rs', 'crates/workspace/src/settings/default_include_patterns.rs'],
  [dict(name='pattern matching', where='crates/workspace/src/file_patterns.rs: FilePatterns, DefaultFilePatterns')],
  observe=['ExcludePatterns::matched', 'ExcludePatterns::matched_path_or_any_parents', 'DefaultExcludePatterns', 'DefaultIncludePatterns'])

P('C06', 'Paths are normalised lexically and shown without changing what they name',
  'Normalising a path gives an absolute path without `.` and `..` components: the lexical resolution of the path against the working directory (`..` at the root stays there), and '
  'normalising again changes nothing. Relativising a path below the working directory gives the rest of the path, which names the same file from there; a path elsewhere is '
  'shown unchanged. A path has an R extension exactly when its extension is `r` or `R`.',
  ['inputs'], 'all paths', 'There are no tests for these helpers; every settings lookup, every message and every exclusion starts from them.',
  ['crates/fs/src/lib.rs'], [dict(name='path helpers', where='crates/fs/src/lib.rs: normalize_path, relativize_path, has_r_extension, is_r_extension')],
  observe=['fs::normalize_path', 'fs::relativize_path', 'fs::has_r_extension', 'fs::is_r_extension'])

P('C07', 'The grammar reader accepts exactly its notation and builds what it denotes',
  'Reading a grammar never panics. It succeeds exactly for texts in the ungrammar notation (rules `Name = rule`, each name defined exactly once and every mentioned name defined; alternatives, '
  '`||` and `&&` groups not mixed at one level; labels, `?`, `*`, parentheses, quoted tokens with escapes, `//` comments), and then holds every node and token name once, in order of first mention, '
  'with the rule its text denotes. Otherwise it reports an error, and where the error names a position it is the 1-based line and column (in characters) of the offending character or token.',
  ['inputs'], 'all texts', 'The one test reads one correct grammar; the syntax tree code of the whole formatter is generated from what this reader returns.',
  ['crates/biome_ungrammar/src/lexer.rs', 'crates/biome_ungrammar/src/parser.rs', 'crates/biome_ungrammar/src/lib.rs', 'crates/biome_ungrammar/src/error.rs'],
  [dict(name='lexer', where='crates/biome_ungrammar/src/lexer.rs: tokenize'), dict(name='parser', where='crates/biome_ungrammar/src/parser.rs: parse')],
  observe=['str::parse::<Grammar>', 'Grammar indexing', 'Display of Error'])

P('C08', 'The Zed extension starts the right air binary and manages its downloads safely',
  'The extension starts the path the user configured, otherwise the `air` on the PATH, otherwise the binary it downloaded earlier if that file still exists, otherwise the one from the latest full release of posit-dev/air, '
  'always with the user\'s arguments or, without any, just `language-server`. A download uses exactly the asset built for the platform and architecture, goes to `air-<version>`, happens only when that release '
  'is not there yet, and is followed by removing the directories of other releases but never the one in use; when the release, the asset or the download is not available the start fails with an error '
  'and nothing is removed. The user\'s initialization options and settings reach the server unchanged (null when there are none).',
  ['configurations', 'histories', 'fault_sequences'], 'all user settings, platforms, releases, and histories of starts, failures and removed files',
  'The test looks at three asset names; the choice, the cache and the clean-up are not tested at all.',
  ['editors/zed/src/lib.rs'], [dict(name='choice of the binary and clean-up', where='editors/zed/src/lib.rs: AirExtension::language_server_binary'), dict(name='asset names', where='editors/zed/src/lib.rs: GithubReleaseDetails::new')],
  state=[dict(name='cached_binary_path', meaning='binary of an earlier download', where='editors/zed/src/lib.rs'), dict(name='extension directory', meaning='one directory per downloaded release', where='editors/zed/src/lib.rs')],
  observe=['language_server_command', 'downloads requested', 'contents of the extension directory'])

P('C09', 'Settings values stay within their documented domains and mean what they say',
  'An indent width is accepted exactly for 1 to 24 and a line width exactly for 1 to 320, whether given as a number or read from configuration, and then has the given value; the defaults are 2 and 80. '
  'Style options accept exactly their documented names (`tab`/`space`, `arrow`/`equal`/`preserve`, `respect`/`ignore`), each meaning itself. Membership in a skip or table list is exactly '
  '"was listed", whatever the order and the duplicates, and merging two table lists gives exactly their union.',
  ['inputs', 'configurations'], 'all integers, all option strings, all name lists and all queried names',
  'Tests try a few values; the lists are sorted and searched by bisection, so a wrong comparison or a missing sort shows for particular orders only.',
  ['crates/settings/src/indent_width.rs', 'crates/settings/src/line_width.rs', 'crates/settings/src/indent_style.rs', 'crates/settings/src/assignment_style.rs',
   'crates/settings/src/persistent_line_breaks.rs', 'crates/settings/src/sorted_strings.rs', 'crates/settings/src/skip.rs', 'crates/settings/src/table.rs'],
  [dict(name='range checks', where='crates/settings/src/indent_width.rs, line_width.rs: TryFrom'), dict(name='sorted list and bisection', where='crates/settings/src/sorted_strings.rs')],
  observe=['IndentWidth::try_from', 'LineWidth::try_from', 'Deserialize of the settings types', 'SortedStrings::contains', 'Table::merge'])

P('C10', 'The test client delivers every framed message once, however the bytes arrive',
  'Encoding a message gives a `Content-Length` header with the length of the body in bytes, followed by the body, and decoding that gives the message back. From any sequence of framed messages, split into pieces anywhere, decoding '
  'delivers each valid message exactly once and in order as soon as it is complete; a message whose body is not valid UTF-8 or JSON is reported as one error, an empty one is skipped, a header without a usable length or with a charset other '
  'than UTF-8 is reported, and in every case the messages that follow are still delivered.',
  ['inputs', 'histories'], 'all bodies, sequences of messages and ways of splitting the stream',
  'The tests decode a handful of streams; the state kept between pieces depends on where the stream is cut.',
  ['crates/lsp_test/src/tower_lsp/codec.rs'], [dict(name='framing', where='crates/lsp_test/src/tower_lsp/codec.rs: LanguageServerCodec')],
  state=[dict(name='content_len', meaning='length of the body being waited for', where='crates/lsp_test/src/tower_lsp/codec.rs')],
  observe=['LanguageServerCodec::decode', 'LanguageServerCodec::encode'])

P('C11', 'Every air.toml option takes effect exactly as written, and invalid ones fail',
  'An air.toml (a `[format]` table) is accepted exactly when every key is a documented option with a value in its documented domain: `line-width` 1 to 320, `indent-width` 1 to 24, `indent-style`, `line-ending`, `assignment-style` one of their names, '
  '`persistent-line-breaks`, `default-exclude` and `default-table` booleans, `exclude`, `skip` and `table` lists of strings. An accepted option determines the formatter option (or the set of excluded files) it names, and nothing else: every option '
  'that is not mentioned keeps its default, whatever else is mentioned. Unknown or misspelt keys, in or outside of `[format]`, are errors and not ignored. A `table` list adds to the default names unless `default-table` is false; '
  '`exclude` adds to the default exclusions, which `default-exclude = false` turns off.',
  ['configurations', 'inputs'], 'all option keys, values and combinations of options',
  'The tests parse a few files; which option reaches which formatter setting, alone and in combination, and near misses of keys and values vary over all of them.',
  ['crates/workspace/src/toml.rs', 'crates/workspace/src/toml_options.rs', 'crates/workspace/src/settings.rs', 'crates/settings/src/indent_width.rs', 'crates/settings/src/line_width.rs', 'crates/air_r_formatter/src/context.rs'],
  [dict(name='TOML options to settings', where='crates/workspace/src/toml_options.rs: TomlOptions::into_settings'), dict(name='settings to formatter options', where='crates/workspace/src/settings.rs: FormatSettings::to_format_options')],
  observe=['workspace::toml::parse_air_inline_toml', 'TomlOptions::into_settings', 'FormatSettings::to_format_options'])

P('C12', 'A file is formatted with the nearest air.toml or .air.toml above it',
  'For every layout of directories and configuration files, the settings found for a path are those of the closest directory, from the path itself (or its directory) upwards, that holds a regular file named exactly `air.toml` or `.air.toml`, with `air.toml` '
  'winning when both exist, and the defaults when there is none; this also holds for paths that do not exist or contain `.` or `..`, and for several paths looked up together. A configuration file that is needed and invalid is an error, never '
  'silently replaced by the defaults or by a configuration further up.',
  ['configurations', 'inputs'], 'all layouts of configuration files, and all sets of looked-up paths',
  'The tests have two layouts; the search shares what it has visited between paths, so that a result can depend on which paths came before.',
  ['crates/workspace/src/discovery.rs', 'crates/workspace/src/toml.rs', 'crates/workspace/src/resolve.rs'],
  [dict(name='search of the ancestors', where='crates/workspace/src/discovery.rs: discover_settings'), dict(name='names of the configuration file', where='crates/workspace/src/toml.rs: find_air_toml_in_directory, is_air_toml')],
  observe=['workspace::discovery::discover_settings', 'PathResolver::resolve_or_fallback'])

P('C13', 'Searching for R files finds exactly the files that are to be formatted',
  'The files found for a set of paths are, each once: every supplied file and every file below a supplied directory, as far as it is included (its name ends in .R or .r) and neither it nor a directory above it (below the supplied directory or, for the user\'s patterns, '
  'below the configuration) is excluded by default or by the user. While a directory is searched, hidden entries are passed over, and inside of a git repository so is what `.gitignore` names; neither applies to a path that was '
  'supplied itself. With the exclusions and inclusions turned off (`--force`) everything but hidden and git-ignored entries is found.',
  ['inputs', 'configurations'], 'all directory trees, names, patterns and supplied paths',
  'The tests search three fixed trees; which rule meets which component (default or user pattern, hidden, ignored, supplied or found) depends on the names and on where the search starts.',
  ['crates/workspace/src/discovery.rs', 'crates/workspace/src/file_patterns.rs'],
  [dict(name='search and filters', where='crates/workspace/src/discovery.rs: discover_r_file_paths, FileVisitor')],
  observe=['workspace::discovery::discover_r_file_paths'])

P('C14', 'air format writes exactly the files that need it and reports the rest truthfully',
  'After `air format PATHS`, each file which was found for the paths, can be formatted and is not formatted yet holds exactly its formatted text (by the options of its configuration), and every other file is untouched; a file that is not valid UTF-8 or R, or '
  'fails to format, is left as it was, is reported, and does not keep the others from being formatted. With `--check` nothing is written and exactly the files that would change are listed. The exit status is 0 for success, 1 when `--check` finds a file that would '
  'change, and 255 when anything failed (also a path that does not exist, or a broken configuration, with which nothing is formatted). No other file appears or disappears, and nothing is written to the standard output. `--force` formats excluded files too.',
  ['inputs', 'configurations', 'fault_sequences'], 'all file contents, configurations, sets of paths and flags',
  'The tests run the binary on a few good projects; a failure next to a success, check mode with failures, and the combination of flags, exclusions and configurations are not sampled.',
  ['crates/air/src/commands/format/paths.rs', 'crates/air/src/commands/format.rs', 'crates/air/src/status.rs', 'crates/workspace/src/format.rs'],
  [dict(name='formatting files', where='crates/air/src/commands/format/paths.rs'), dict(name='formatting a source', where='crates/workspace/src/format.rs')],
  observe=['contents of the files', 'exit status', 'standard output and error'])

P('C15', 'air format --stdin-file-path gives the formatted text, the text itself, or fails',
  'With `--stdin-file-path` the standard output is exactly the formatted text of the standard input, by the configuration which applies to the given path (it need not exist), when a file of that path would be formatted; exactly the input when it '
  'would be left alone (excluded, or not an R file; `--force` overrides that); and nothing when the input cannot be formatted, the configuration is broken or further paths are given, with exit status 255. With `--check` nothing is written to the standard output and the '
  'status is 1 exactly when the text would change. No file is written.',
  ['inputs', 'configurations', 'fault_sequences'], 'all inputs, paths, configurations and flags',
  'Editors pipe whole files through this and take what comes back; the tests cover a few inputs and not the combinations of path, exclusion, flags and failure.',
  ['crates/air/src/commands/format/stdin.rs', 'crates/air/src/commands/format.rs', 'crates/workspace/src/format.rs'],
  [dict(name='formatting the standard input', where='crates/air/src/commands/format/stdin.rs')],
  observe=['standard output', 'exit status', 'contents of the files'])

P('C16', 'The language server\'s copy of a document is exactly the client\'s text',
  'After an open and any sequence of change notifications (whole texts and ranges, several changes in one notification, each about the text as the previous one left it), the document of the server is the client\'s text with `\\r\\n` as `\\n`, for both position '
  'encodings and all characters, and its line index, syntax tree and version belong to that text. The line ending of the document is the one it was opened with.',
  ['histories', 'inputs'], 'all texts and sequences of changes, both position encodings',
  'The tests apply three changes to one ASCII text; offsets depend on multi-byte characters, line ends and the changes before.',
  ['crates/lsp/src/documents.rs', 'crates/aether_lsp_utils/src/proto/from_proto.rs'],
  [dict(name='document updates', where='crates/lsp/src/documents.rs: Document::on_did_change'), dict(name='positions to offsets', where='crates/aether_lsp_utils/src/proto/from_proto.rs: apply_text_edits')],
  state=[dict(name='Document', meaning='text, line index, tree and version of an open document', where='crates/lsp/src/documents.rs')],
  observe=['Document'])

P('C17', 'Text edits sent and applied by the language server mean what the protocol says',
  'The edits for a whole document or for a range lead, applied as the language server protocol prescribes to the client\'s text (with its own line endings, positions in the negotiated encoding), to exactly the new text with those line endings, whatever way the comparison of the two '
  'texts finds; they do not overlap and lie inside of the text. A range of the client is the text it covers there. Applying edits oneself follows the same rules: all positions are about the text before the edits, in whatever order '
  'the edits are given, and inserts at one position appear in the order given.',
  ['inputs'], 'all pairs of texts, all sets of edits, both position encodings and line endings',
  'The tests compare two ASCII texts; a wrong offset shows behind multi-byte characters, at line ends, or for edits that touch each other.',
  ['crates/aether_lsp_utils/src/proto/to_proto.rs', 'crates/aether_lsp_utils/src/proto/from_proto.rs', 'crates/aether_lsp_utils/src/diff.rs'],
  [dict(name='edits to the client', where='crates/aether_lsp_utils/src/proto/to_proto.rs: replace_all_edit, replace_range_edit'), dict(name='edits from the client', where='crates/aether_lsp_utils/src/proto/from_proto.rs: apply_text_edits, text_range'), dict(name='difference', where='crates/aether_lsp_utils/src/diff.rs')],
  observe=['replace_all_edit', 'replace_range_edit', 'text_range', 'apply_text_edits'])

P('C18', 'Formatting a document in an editor gives the formatted text, with its settings',
  'When an editor asks for an open document to be formatted, the edits in the answer turn the text the client has at that time into the formatted text, written with the line endings of the document. '
  'The settings are those of the `air.toml` which applies to the innermost open workspace folder that contains the file (to an unsaved document those of the only open folder), whatever the editor asks for; otherwise indentation is what the editor asks for '
  '(an impossible width counts as the default). No edits are given for a text with parse errors, an excluded file, or a text that is formatted already; a formatter error and a document that is not open are reported as errors. A notebook cell does not get a final line end.',
  ['inputs', 'configurations', 'histories'], 'all texts, changes, folders, configurations, file names, formatting options and position encodings',
  'The tests format a dozen ASCII texts, with a handful of settings, from a client which was just opened.',
  ['crates/lsp/src/handlers_format.rs', 'crates/lsp/src/workspaces.rs', 'crates/lsp/src/handlers_state.rs', 'crates/lsp/src/file_patterns.rs', 'crates/lsp/src/settings.rs', 'crates/workspace/src/format.rs'],
  [dict(name='document formatting', where='crates/lsp/src/handlers_format.rs: document_formatting'), dict(name='settings of a document', where='crates/lsp/src/workspaces.rs: settings_for_url, to_format_options'), dict(name='exclusion', where='crates/lsp/src/file_patterns.rs')],
  observe=['textDocument/formatting'])

P('C19', 'The language server follows changes of air.toml, folders and client settings',
  'After any sequence of changes of `air.toml` files (created, changed, broken, repaired, deleted), of opened and closed workspace folders and documents and of client settings, of which the server was notified, each open document is formatted by the settings that apply to it now. '
  'While `air.syncFileSettingsWithClient` is on (as far as the client told), the last `air/syncFileSettings` notification lists exactly those open documents to which an `air.toml` applies, each with its current indentation and line width; while it is off no such notification is sent.',
  ['histories', 'configurations'], 'all sequences of events, all configurations',
  'A server which forgets to reload, to forget or to tell is right until a certain sequence of events; the tests have two.',
  ['crates/lsp/src/workspaces.rs', 'crates/lsp/src/handlers_state.rs', 'crates/lsp/src/main_loop.rs', 'crates/lsp/src/notifications', 'crates/workspace/src/resolve.rs', 'crates/workspace/src/discovery.rs'],
  [dict(name='reload', where='crates/lsp/src/workspaces.rs: reload_workspaces_matched_by_url, open_workspace_folder, close_workspace_folder'), dict(name='synchronization', where='crates/lsp/src/main_loop.rs: sync_file_settings; crates/lsp/src/handlers_state.rs')],
  state=[dict(name='WorkspaceSettingsResolver', meaning='the settings of each open folder', where='crates/lsp/src/workspaces.rs'), dict(name='LspState.settings', meaning='client settings', where='crates/lsp/src/main_loop.rs')],
  observe=['textDocument/formatting', 'air/syncFileSettings'])

P('C20', 'Formatting a selection formats the expressions it touches and nothing else',
  'When an editor asks for a selection to be formatted, the answer replaces consecutive whole expressions of one list (of the file, or of braces; the innermost list which contains both ends of the selection), with the comments that belong to them, by their formatted text, and changes nothing else. They start with the '
  'expression which contains the start of the selection (or the first one behind it) and end with the last one which starts at or before its end; when there is none, nothing changes. Settings, exclusion, parse errors and errors are as for documents.',
  ['inputs', 'configurations'], 'all texts and selections, both position encodings and line endings',
  'The tests have some twenty selections; what goes wrong depends on where exactly both ends are, among comments, blank lines, nested braces and multi-byte characters.',
  ['crates/lsp/src/handlers_format.rs', 'crates/aether_lsp_utils/src/proto/to_proto.rs', 'crates/aether_lsp_utils/src/proto/from_proto.rs'],
  [dict(name='range formatting', where='crates/lsp/src/handlers_format.rs: document_range_formatting, find_deepest_enclosing_logical_lines, find_expression_lists')],
  observe=['textDocument/rangeFormatting'])

P('C21', 'The language server answers each request by what was sent before it, always',
  'However the tasks of the server take turns, each request that is not cancelled gets an answer, and it is about the documents and settings as told by all notifications which the client sent before the request, and none sent after it. Notifications which '
  'fail, cancelled requests and missing or malformed answers of the client do not stop the server or change other answers, and it shuts down when asked to.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of tasks, all sequences of notifications and requests, all client faults',
  'The tests wait for each answer before the next message, on one schedule.',
  ['crates/lsp/src/main_loop.rs', 'crates/lsp/src/tower_lsp.rs', 'crates/lsp/src/handlers_state.rs'],
  [dict(name='main loop', where='crates/lsp/src/main_loop.rs: GlobalState::main_loop, handle_event'), dict(name='requests', where='crates/lsp/src/tower_lsp.rs: Backend::request, Backend::notify')],
  state=[dict(name='event queue', meaning='messages which wait for the main loop', where='crates/lsp/src/main_loop.rs')],
  observe=['LanguageServer methods of Backend'])

P('C22', 'The published JSON schema of air.toml describes exactly what air accepts',
  'A configuration is valid under artifacts/air.schema.json, which editors use to check and complete air.toml, exactly if air itself can read it: the same tables and options, with the same types, the same words and the same limits of numbers, and nothing else.',
  ['configurations', 'inputs'], 'all configurations',
  'No test compares the two: the schema is generated by hand (`just gen-schema`) and only compared with itself.',
  ['artifacts/air.schema.json', 'crates/workspace/src/toml_options.rs', 'crates/settings/src'],
  [dict(name='options', where='crates/workspace/src/toml_options.rs: TomlOptions, FormatTomlOptions'), dict(name='schema', where='artifacts/air.schema.json')],
  observe=['workspace::toml::parse_air_inline_toml'])

P('C23', 'The language server sets each session up as the client offers and asks',
  'At the start, the server chooses a position encoding the client has offered (UTF-16 unless it offers UTF-8); it registers for changes of every air.toml and .air.toml, and of the settings it uses, exactly if the client can do dynamic registration; and asks for settings exactly if the client answers such questions, '
  'then for all it uses. air\'s own logs have the level of AIR_LOG_LEVEL if that names one, else that which the client gives at the start or in later answers, else info; logs of dependencies are off unless asked for (AIR_DEPENDENCY_LOG_LEVELS, then the client). Malformed options or answers change nothing and do not stop the server.',
  ['configurations', 'inputs', 'fault_sequences'], 'all capabilities, initialization options, environments and answers',
  'The tests use one client with one set of capabilities and never vary the log level.',
  ['crates/lsp/src/handlers_state.rs', 'crates/lsp/src/handlers.rs', 'crates/lsp/src/capabilities.rs', 'crates/lsp/src/logging.rs', 'crates/lsp/src/settings.rs', 'crates/lsp/src/settings_vsc.rs'],
  [dict(name='start', where='crates/lsp/src/handlers_state.rs: initialize'), dict(name='registrations', where='crates/lsp/src/handlers.rs: handle_initialized'), dict(name='log levels', where='crates/lsp/src/logging.rs: log_filter, LogState::reload')],
  observe=['initialize', 'client/registerCapability', 'workspace/configuration'])

P('C24', 'Parsing R code loses, invents and misplaces nothing',
  'The syntax tree of a valid R program has the text of the program, byte for byte (a byte order mark included), and the structure of the grammar in xtask/codegen/r.ungram: every operator, keyword, literal, parameter and argument (holes between commas included) is the token and in the node and slot it belongs to, for all constructs and nestings. '
  'Each comment is in the tree exactly once, attached to the token before it if that is on the same line, otherwise to the token after it; each line break is one piece that leads the token after it. '
  'A text with a syntax error is reported as an error as a whole, its text kept; parsing never panics.',
  ['programs', 'inputs'], 'all valid R programs, with all blanks, line breaks, semicolons and comments',
  'The tests parse some dozens of snippets; what may stand between any two tokens of any construct, and every construct inside of every other, are more than they can list.',
  ['crates/air_r_parser/src/parse.rs', 'crates/air_r_parser/src/treesitter.rs', 'crates/air_r_factory/src', 'crates/air_r_syntax/src'],
  [dict(name='tree-sitter tree to syntax tree', where='crates/air_r_parser/src/parse.rs: RWalk'), dict(name='trivia', where='crates/air_r_parser/src/parse.rs: RParse::derive_trivia'), dict(name='slots of nodes', where='crates/air_r_factory/src/generated/syntax_factory.rs')],
  observe=['air_r_parser::parse'])

NOBIOME = ('the layout rules are written against biome_formatter and biome_rowan and read trees made by tree-sitter-r; none of these is available offline even as source, so the code cannot be compiled and '
           'nothing can be encoded, and stand-ins of their own would decide the property instead of air')
P('C30', 'Formatting is idempotent',
  'Formatting a formatted R file changes nothing, for all R files and all settings.', ['programs', 'configurations'], 'all R programs and settings',
  'The snapshot tests format some files twice.', ['crates/air_r_formatter/src/r', 'crates/air_r_formatter/src/comments.rs'], [dict(name='format rules', where='crates/air_r_formatter/src')], na=NOBIOME)
P('C31', 'Formatting preserves the meaning of the program and all of its comments',
  'The formatted text of an R file parses to the same program (apart from the documented rewrites of assignment operators, braces and string quotes) and holds the same comments, for all R files and all settings.', ['programs', 'configurations'], 'all R programs and settings',
  'The snapshot tests look at a few hundred programs.', ['crates/air_r_formatter/src/r', 'crates/air_r_formatter/src/comments.rs'], [dict(name='format rules', where='crates/air_r_formatter/src')], na=NOBIOME)
P('C32', 'Text under a skip directive stays as it is',
  'An expression below `# fmt: skip`, a file with `# fmt: skip file` and a call to a function in the skip list keep their text byte for byte, and nothing else is kept from formatting.', ['programs', 'configurations'], 'all R programs and skip lists',
  'The snapshot tests have some placements of the directive.', ['crates/air_r_formatter/src/comments.rs', 'crates/air_r_formatter/src/cst.rs'], [dict(name='suppression', where='crates/air_r_formatter/src/comments.rs')], na=NOBIOME)
P('C33', 'Every program that R accepts is parsed, and nothing else',
  'Parsing a text reports an error exactly if R itself would reject it.', ['programs', 'inputs'], 'all texts',
  'The tests parse a few programs.', ['crates/air_r_parser/src'], [dict(name='use of tree-sitter', where='crates/air_r_parser/src/parse.rs')],
  na='which texts are accepted is decided by tree-sitter-r, a generated C parser which is not available offline; what air makes of its trees is C24')
P('C34', 'The VS Code extension finds the right air and starts one server',
  'For every setting of `air.executablePath` and `air.executableStrategy`, platform and bundled binary the extension starts the documented executable.', ['configurations'], 'all settings and platforms',
  'There is one test of the choice.', ['editors/code/src'], [dict(name='choice of the binary', where='editors/code/src/binary.ts')],
  na='TypeScript over the vscode API: there is no symbolic execution of JavaScript here (crosshair is for Python, KLEE-like engines for LLVM IR)')

# What is compared with what, for DESIGN.md
HOW = {
    'C01': 'The harness states the grammar of directives as a predicate over the bytes of the comment (no parsing code shared with air) and compares it with what `parse_comment_directive` and `parse_special_skip_file` return. Three families of inputs: every short text, every text near a directive spelling, and two independent bytes anywhere.',
    'C02': 'Byte-wise reference (drop `\\r` exactly in front of `\\n`), written as data flow without branches on symbolic bytes; compared with `normalize` and `normalize_ref`, whose raw-pointer compaction is executed with bounds checking by the executor. UTF-8 validity of the result is checked by std\'s own validator, executed symbolically.',
    'C03': 'Reference: the first `\\n` of the text and the byte in front of it. Compared with `line_ending::infer` and with the finalised setting that `to_format_options` uses.',
    'C04': 'Model: the list of operations; the answer for a query is the latest value of the longest configured ancestor by components. Symbolic characters decide whether names are equal, prefixes of each other, or sort around each other.',
    'C05': 'Two oracles: for the menu of documented pattern forms the meaning is spelled out over path components; for arbitrary patterns over `* ? / a b` a reference matcher of the .gitignore rules is executed next to the real code. Default patterns: predicates over the names in the path.',
    'C06': 'Reference: a component stack over bytes. `std::env::current_dir` is the engine\'s (symbolic run) or a scratch directory (native run).',
    'C07': 'A second reader of the notation (recursive descent over characters, written from the documentation of ungrammar) gives accept/reject, the tree and the position of the first error; compared with the real one for every text in the bound.',
    'C08': 'The editor\'s side (shims/zed_extension_api) is the environment: it answers with symbolic choices and records what is asked of it. A model of the downloaded releases decides after every start what must have happened.',
    'C09': 'Direct statements over numbers and names; lists and queried names are symbolic.',
    'C10': 'The harness frames messages itself and decodes them from symbolic pieces.',
    'C11': 'The harness writes the TOML from a model of the options (symbolic values, keys and near misses), reads it with the real toml crate and air\'s options, and looks at the result through the options that the formatter gets and through pattern matching.',
    'C12': 'The harness builds a directory tree in the file system model, with a solver-chosen state of every directory, and computes the nearest configuration from that state.',
    'C13': 'A tree with symbolic names; the expected set follows from predicates over the names (hidden, default, included, named by the pattern). The real `ignore` crate walks the file system model.',
    'C14': '`commands::format::format` is called with every combination of arguments over a project in the file system model; standard streams are files. A reference for the stand-in formatter gives the contents expected.',
    'C15': 'As C14, with the standard input.',
    'C16': 'The client is modelled: it holds its own text (with its own line endings), chooses changes, computes positions in its encoding. After each notification the server\'s document is compared with it.',
    'C17': 'The client applies what it is sent by its own implementation of the protocol. `dissimilar` is a stand-in that returns a solver-chosen correct difference, so the property does not depend on which one the real crate finds.',
    'C18': 'The whole server runs behind `start_lsp`; the harness is its client. It chooses a text, changes, folders, configuration files, options, and applies the edits it is answered by its own implementation of the protocol; the result is compared with what the stand-in formatter does to the client\'s text under the settings which apply by the rules stated.',
    'C19': 'A history is chosen event by event; widths in configuration files are symbolic digits. A model of a few lines keeps which configuration applies to which document. After each event an answer is awaited, formatting is compared, and the last notification is compared with the model.',
    'C20': 'A reader of the harness for the mini language (words, braces, a unary sign, comments) finds the expressions to format, by the rule stated; the client applies the edits, and its whole text is compared. Texts are patterns with symbolic parts.',
    'C21': 'The stand-in for tokio keeps the tasks, and which of those that can go on does so is chosen by the solver. The client sends without waiting, remembers with each request what its text and configuration were, and compares when answers come. A run in which nothing can go on, while an answer is missing, is reported as a hang.',
    'C22': 'The harness includes the schema of the current tree, reads it with serde_json, and evaluates it (as JSON schema says, for the keywords schemars writes) over TOML values with symbolic contents; the same value, written as TOML, goes through the real parse_air_inline_toml. The solver decides that both verdicts agree.',
    'C24': 'A generator makes the program, the tree tree-sitter-r gives for it (by its grammar: kinds, fields, extras) and the tree r.ungram describes, all at once; constructs are solver choices, gaps hold symbolic bytes. The real parser gets the first two through a stand-in for tree-sitter and its result is compared with the third; trivia is compared with the bytes around it.',
    'C23': 'A client with symbolic capabilities, environment, initialization options and answers starts the real server and opens a document; what was registered and asked, and the filter in force in the stand-in for tracing-subscriber, are compared with the rules. Watchers are judged by what their globs match, registrations by the settings they cover.',
}

# planted bugs which are not caught (or were not at first), for the table in DESIGN.md
MISSED = {
    'c11-bad-pattern': 'yes, since h_pattern puts broken patterns into the configuration',
    'c12-directory-config': 'yes, since directories have either name of a configuration file',
    'c13-lost-batch': 'yes, since h_threads lets several workers take turns (the walk had one before)',
    'c18-remote-uri': 'yes, since documents have other schemes than file, untitled and that of cells',
    'c24-comment-hole': 'yes, since comments are put in any gap of programs of three choices (one before)',
    'c19-last-change-wins': 'yes, since notifications name files in other folders together with air.toml',
}
