"""What each check runs, and within which bounds."""
COMMON_ASSUMPTIONS = [
    'the executed IR is produced by rustc 1.94 -O2 with overflow checks and debug assertions; the code generation of other profiles is trusted to agree',
    'the executor (engine/) and Z3 4.8.12 are trusted; each run pushes sampled path models through the native build and compares observations',
    'single-threaded; allocation never fails',
]
NOTES = ('engine/ is a symbolic executor for LLVM IR written for this task; harness/ holds one crate of symbolic drivers per area; check.py compiles them with the sources of /repo '
         'on every run. Counterexamples are replayed natively before they are reported (replay.py repeats that from the replay file).')
PREPARE = {}
PROPS = {}
MEMCHR = 'memchr is replaced by a byte-by-byte stand-in (shims/memchr) in the symbolic build; the native validation uses the real one'
PROPS['C01'] = dict(
    bounds=dict(quick='every UTF-8 comment of up to 7 bytes; every UTF-8 text made from 6 directive spellings (3 generated-file spellings) by replacing up to 2 bytes at any position with up to 3 arbitrary bytes; '
                      'two independent arbitrary ASCII bytes anywhere in 3 spellings; any words of up to 16 letters with up to one blank, - or _ as the category, as the command, behind a command, and as a generated-file mark',
                thorough='the same with 8 bytes, words of 24 letters, and with up to 3 bytes replaced by up to 4'),
    outside='longer comments which differ from a directive spelling in more than one place (apart from the two-byte edits)',
    runs=[
        dict(crate='comments', entry='h_any', quick=[[7]], thorough=[[8]], covers=[4], asserts={1: 'directive differs from the documented grammar'}),
        dict(crate='comments', entry='h_word', quick=[[16]], thorough=[[24]], covers=[1, 2, 3, 4], asserts={1: 'directive differs from the documented grammar', 2: 'generated-file mark differs'}),
        dict(crate='comments', entry='h_near', quick=[[2, 3]], thorough=[[3, 4]], covers=[1, 2, 3, 4], asserts={1: 'directive differs from the documented grammar'}),
        dict(crate='comments', entry='h_two', quick=[[]], covers=[1, 2, 3, 4], asserts={1: 'directive differs from the documented grammar'}),
        dict(crate='comments', entry='h_generated', quick=[[2, 3]], thorough=[[3, 4]], covers=[1, 2], asserts={2: 'generated-file mark differs'}),
        dict(crate='comments', entry='h_generated_any', quick=[[6]], thorough=[[7]], covers=[2], asserts={2: 'generated-file mark differs'}),
    ])
LE = {1: 'normalize: not exactly the \\r of \\r\\n removed', 2: 'normalize: invalid UTF-8', 3: 'normalize_ref differs', 5: 'not stable', 6: 'result still detected as CRLF'}
PROPS['C02'] = dict(
    bounds=dict(quick='every UTF-8 text of up to 8 bytes; every text over {\\r, \\n, a} of up to 11 characters (optionally after a two-byte character); an 80 byte mixed text with any 4 ASCII bytes at 8 positions',
                thorough='the same with 9, 13 and 6'),
    outside='longer texts which are not one window away from the fixed long text', stubs=MEMCHR,
    runs=[dict(crate='line_ending', entry='h_utf8', quick=[[8]], thorough=[[9]], covers=[1, 2, 3], asserts=LE),
          dict(crate='line_ending', entry='h_mix', quick=[[11]], thorough=[[13]], covers=[1, 2, 3], asserts=LE),
          dict(crate='line_ending', entry='h_long', quick=[[4]], thorough=[[6]], covers=[3], asserts=LE)])
PROPS['C03'] = dict(
    bounds=dict(quick='detection: every UTF-8 text of up to 5 bytes, every text over {\\r, \\n, a} of up to 11 characters', thorough='13 characters'),
    outside='longer texts', stubs=MEMCHR,
    runs=[dict(crate='line_ending', entry='h_infer', quick=[[11]], thorough=[[13]], covers=[1, 2, 3, 4],
               asserts={1: 'a text without \\r\\n is not LF', 2: 'a text with only \\r\\n is not CRLF', 3: 'the first line ending does not decide'}),
          dict(crate='patterns', entry='h_finalize', quick=[[8]], thorough=[[11]], covers=[1, 2, 3], asserts={30: 'wrong line ending for the setting', 31: 'wrong default'})])
RES = {1: 'remove returns the wrong value', 2: 'add returns the wrong value', 3: 'wrong number of entries', 4: 'resolve: not the nearest ancestor', 5: 'fallback', 6: 'matches', 7: 'matches_mut',
       8: 'resolve after update', 9: 'clear', 10: 'resolve: not the nearest ancestor', 11: 'remove returns the wrong value', 12: 'add returns the wrong value', 13: 'resolve after removal: not the nearest ancestor'}
PROPS['C04'] = dict(
    bounds=dict(quick='2 additions of any absolute paths of up to 3 characters over {/, a, b, .} after the root and any query of up to 4; 3 additions or removals with 2 and 3 characters; 3 additions of directories up to 3 levels deep '
                      'with names over {a, b, -}; 3 additions, a removal and an addition of directories up to 2 levels deep', thorough='3 additions with 3 and 4 characters; 4 operations; 4 additions of depth 4'),
    outside='longer paths, more configured directories, non-UTF-8 paths',
    runs=[dict(crate='resolve', entry='h_adds', quick=[[2, 3, 4]], thorough=[[2, 4, 5], [3, 2, 4]], covers=[2, 3, 4, 5], asserts=RES),
          dict(crate='resolve', entry='h_ops', quick=[[3, 2, 2]], thorough=[[3, 2, 3], [4, 1, 3]], covers=[1, 2, 3, 4, 5], asserts=RES),
          dict(crate='resolve', entry='h_deep', quick=[[3, 3]], thorough=[[3, 4]], covers=[1, 2], asserts=RES),
          dict(crate='resolve', entry='h_remove', quick=[[3, 2]], thorough=[[4, 2], [3, 3]], covers=[1, 2], asserts=RES)])
PROPS['C09'] = dict(
    bounds=dict(quick='all 64-bit integers; all strings obtained from the option names by deleting up to 1 byte and inserting up to 1, and all of up to 12 ASCII characters; lists of up to 3 names of up to 2 ASCII characters, merges of 2 + 2 names of up to 1 character',
                thorough='edits of 2 + 2 bytes, 16 characters; lists of up to 4 names; merges of 3 + 2'),
    outside='longer lists and names',
    runs=[dict(crate='settings', entry='h_indent', quick=[[]], covers=[1, 2, 3, 4, 5, 6]),
          dict(crate='settings', entry='h_width', quick=[[]], covers=[1, 2, 3, 4]),
          dict(crate='settings', entry='h_names', quick=[[1, 1, 0], [0, 0, 12]], thorough=[[2, 2, 0], [0, 0, 16]], covers=[1, 2, 3, 4, 5]),
          dict(crate='settings', entry='h_lists', quick=[[3, 1], [2, 2]], thorough=[[4, 1], [3, 2]], covers=[1, 2]),
          dict(crate='settings', entry='h_merge', quick=[[2, 1]], thorough=[[3, 1], [2, 2]], covers=[1, 2, 3])])
PROPS['C06'] = dict(
    bounds=dict(quick='normalisation: every path of up to 9 characters over {/, ., a, b}, and the working directory followed by up to 8 characters over {/, ., a}; relativisation: every UTF-8 path of up to 5 bytes, '
                      'absolute or below the working directory; extensions: every UTF-8 extension of up to 4 bytes; every byte path of up to 5 bytes and every path over {a, /, ., r, R} of up to 5',
                thorough='11, 10, 6 and 6'),
    outside='longer paths; Windows and WASM paths; a working directory which changes while the program runs or cannot be determined',
    runs=[dict(crate='fs', entry='h_paths', quick=[[9]], thorough=[[11]], covers=[1, 2, 3, 4],
               asserts={1: 'normalize_path: not the lexical resolution against the working directory', 2: 'not absolute', 3: 'not stable', 4: 'the relative form names another file', 5: 'relative exactly below the working directory', 6: 'relative form'}),
          dict(crate='fs', entry='h_cwd', quick=[[8]], thorough=[[10]], covers=[1, 2, 4]),
          dict(crate='fs', entry='h_relativize', quick=[[5]], thorough=[[6]], covers=[1, 2, 3]),
          dict(crate='fs', entry='h_ext', quick=[[4]], thorough=[[5]], covers=[1, 2], asserts={10: 'is_r_extension'}),
          dict(crate='fs', entry='h_has', quick=[[5]], thorough=[[6]], covers=[1, 2], asserts={11: 'has_r_extension'})])
UG = {1: 'a grammar is accepted or rejected wrongly', 2: 'nodes: not each name once in order of first mention', 3: 'tokens: not each name once in order of first mention', 4: 'wrong rule', 5: 'error reported at the wrong place'}
PROPS['C07'] = dict(
    bounds=dict(quick='any text of up to 4 characters over {A, B, =, *, ?, (, ), |, &, :, quote, /, backslash, space, newline} after `A=`, and of up to 3 on its own; four sample grammars with up to 1 character replaced by up to 1 '
                      'or 2 inserted anywhere, over that alphabet; any one UTF-8 byte anywhere in them (ASCII) any UTF-8 text of up to 3 bytes in a comment, of up to 4 in a token in front of an error', thorough='5, 4, edits 2 + 2, 2 bytes (any two-byte character) anywhere, 4'),
    outside='longer grammars; the wording of messages; nesting deep enough to exhaust the stack',
    runs=[dict(crate='ungram', entry='h_text', quick=[[4]], thorough=[[5]], covers=[1, 2, 3, 4], asserts=UG),
          dict(crate='ungram', entry='h_start', quick=[[3]], thorough=[[4]], covers=[2, 3, 4], asserts=UG),
          dict(crate='ungram', entry='h_comment', quick=[[3]], thorough=[[4]], covers=[1, 2], asserts=UG),
          dict(crate='ungram', entry='h_literal', quick=[[4]], thorough=[[5]], covers=[2], asserts=UG),
          dict(crate='ungram', entry='h_edit', quick=[[1, 1], [0, 2]], thorough=[[2, 2]], covers=[1, 2, 3, 4], asserts=UG),
          dict(crate='ungram', entry='h_char', quick=[[1]], thorough=[[2]], covers=[1, 2, 3, 4], asserts=UG)])
PROPS['C08'] = dict(
    bounds=dict(quick='every choice of user path, user arguments and PATH entry with texts of up to 2 bytes; histories of 3 starts over all platforms and architectures with two releases (names of 1 character over {1, ., v}), restarts, '
                      'missing assets, failing requests and downloads, and the binary being removed in between; user options with texts of up to 2 bytes',
                thorough='texts of up to 4 bytes; 4 starts; names of 2 characters'),
    outside='longer histories; file system errors other than missing files; how Zed performs a download',
    stubs='zed_extension_api is a stand-in for the editor (shims/zed_extension_api): it answers with the symbolic choices, records requests, and a download creates files; the file system is the engine\'s model, and a scratch directory natively',
    runs=[dict(crate='zed', entry='h_choice', quick=[[2]], thorough=[[4]], covers=[1, 2, 3],
               asserts={1: 'no command', 2: 'wrong binary', 3: 'wrong arguments', 4: 'a download although the user has a binary (or none without one)'}),
          dict(crate='zed', entry='h_history', quick=[[3, 1]], thorough=[[4, 1], [3, 2]], covers=[1, 2, 3, 4, 5, 6],
               asserts={10: 'an earlier download is not used', 11: 'network used although there is an earlier download', 12: 'not the latest full release of posit-dev/air', 13: 'no error, or a download, without an asset',
                        14: 'files removed although nothing was installed', 15: 'installed release not used', 16: 'installed release downloaded again', 17: 'the installed binary is gone', 18: 'not downloaded',
                        19: 'wrong asset, directory or kind of archive', 20: 'failed download not reported', 21: 'wrong path of the binary', 22: 'outdated release left behind', 23: 'wrong arguments'}),
          dict(crate='zed', entry='h_options', quick=[[2]], thorough=[[4]], covers=[1, 2], asserts={30: 'initialization options', 31: 'settings'})])
CO = {b + k: w + v for b, w in [(0, ''), (100, 'body not UTF-8: '), (200, 'empty body: '), (300, 'no Content-Length: ')]
      for k, v in [(1, 'the same error is reported for ever'), (2, 'data left behind after a complete stream'), (3, 'not each message once, in order'), (4, 'broken header not reported, or what follows is lost')]}
PROPS['C10'] = dict(
    bounds=dict(quick='three messages, the first with any body of up to 2 bytes and three forms of the header, the second with any body of up to 1 byte, cut anywhere into two pieces; broken headers with any text of up to 3 characters, '
                      'cut anywhere into two pieces; encoding of any UTF-8 text of up to 3 bytes, alone or in a longer message or after other data',
                thorough='bodies of up to 3 bytes; cuts into three pieces; texts of up to 4 bytes'),
    outside='more messages and pieces; bodies other than JSON numbers (parsing is serde_json\'s); header blocks httparse itself rejects; more than two headers',
    stubs='tokio-util is replaced by its two codec traits and tracing by no-ops in the symbolic build, memchr by a byte-by-byte stand-in; httparse is built without SIMD; the native validation uses the real crates',
    runs=[dict(crate='codec', entry='h_bodies', quick=[[2, 2, 1]], thorough=[[2, 3, 1], [1, 2, 2]], covers=[1, 2, 3],
               asserts=CO),
          dict(crate='codec', entry='h_recover', quick=[[3, 1]], thorough=[[4, 1], [2, 2]], covers=[1, 2, 3, 4],
               asserts=CO),
          dict(crate='codec', entry='h_encode', quick=[[3]], thorough=[[4]], covers=[1, 2], asserts={5: 'wrong frame', 6: 'does not decode to itself', 7: 'data left behind'})])
EXC = {1: 'a valid pattern is rejected', 2: 'a path itself is matched wrongly', 3: 'a path below an excluded directory is matched wrongly', 10: 'default exclusion of the path itself', 11: 'default exclusion of a path or its parents', 12: 'default inclusion'}
PROPS['C05'] = dict(
    bounds=dict(quick='one of 21 documented kinds of pattern on every path of up to 9 characters over {a, b, /, ., R, -} below the root (7 for three different roots), two of them on up to 6; every pattern of up to 5 characters over {a, b, *, ?, /} on '
                      'every path of up to 5 over {a, b, /}; every ASCII text of up to 3 characters as a pattern, alone and among two others, on paths of up to 3; files and directories; default patterns: 8 paths with up to 3 bytes replaced by up to 3 '
                      'arbitrary ones anywhere, any ASCII character anywhere in them, every UTF-8 path of up to 8 bytes, and directories and files named by any word of up to 20 letters with -, . or _ at up to one place',
                thorough='12 (9) and 8; 6 on 8; 4 on 4; 5 by 5; 10'),
    outside='longer patterns and paths; patterns starting with ! (not advertised); `**` next to other characters; paths outside the root or with `.` and `..`; character classes other than in the menu when compared with the documentation',
    stubs='globset keeps its real parser and choice of strategy, but patterns are matched by a branch-free simulation (dep/globset) instead of compiled regular expressions; the rest of the ignore crate is real; the native validation uses the real crates',
    runs=[dict(crate='patterns', entry='h_user', quick=[[9, 0], [7, 1]], thorough=[[12, 0], [9, 1]], asserts=EXC, covers=[1, 2, 3]),
          dict(crate='patterns', entry='h_two', quick=[[6]], thorough=[[8]], asserts=EXC, covers=[1, 2, 3]),
          dict(crate='patterns', entry='h_pattern', quick=[[5, 5]], thorough=[[6, 8]], asserts=EXC, covers=[1, 2, 3]),
          dict(crate='patterns', entry='h_default', quick=[[3, 3]], thorough=[[5, 5]], asserts=EXC, covers=[1, 2, 3, 4]),
          dict(crate='patterns', entry='h_default_word', quick=[[20]], thorough=[[28]], asserts=EXC, covers=[3, 4]),
          dict(crate='patterns', entry='h_default_any', quick=[[8]], thorough=[[10]], asserts=EXC, covers=[3, 4]),
          dict(crate='patterns', entry='h_robust', quick=[[3, 3]], thorough=[[4, 4]], asserts={20: 'a pattern matches differently alone and in a list'}, covers=[1, 2, 3]),
          dict(crate='patterns', entry='h_default_byte', quick=[[]], asserts=EXC, covers=[1, 2, 3, 4])])
TOML = {1: 'indent style', 2: 'indent width', 3: 'line width', 4: 'line ending', 5: 'persistent line breaks', 6: 'assignment style', 7: 'skip', 8: 'table', 9: 'default exclusions', 10: 'default inclusions', 11: 'exclusions',
        20: 'a valid value is rejected or an invalid one accepted', 21: 'valid options do not become settings', 22: 'an unknown key is accepted or a known one rejected'}
PROPS['C11'] = dict(
    bounds=dict(quick='each of the 11 keys with: integers of up to 3 digits, option names with up to 1 byte replaced by up to 1, booleans, lists of up to 2 names of 1 letter; 3 options together in all selections given by a start and a step; each key with up to 2 bytes replaced by up to 2, in and outside of [format]; every key of up to 24 lower case letters with up to two - or _, and every such word of up to 12 as the value of an option that takes words; calls of any name of up to 16 letters against 8 lists',
                thorough='integers of 4 digits, edits of 2 bytes, names of 2 letters; 5 options together; keys with 3 bytes edited, keys of 32 and words of 16 letters'),
    outside='other spellings of the same TOML (the toml crate is real, but texts are these forms); longer lists',
    stubs='the formatter and the parser are stand-ins over a mini language (dep/air_r_formatter keeps the real options and context, shims/air_r_parser): they drop blanks, write line ends and indentation by the options, and fail on given characters; biome_* crates are stand-ins',
    runs=[dict(crate='workspace', entry='h_option', quick=[[3, 1, 1]], thorough=[[4, 1, 1], [2, 2, 1]], asserts=TOML, covers=[1, 2]),
          dict(crate='workspace', entry='h_options', quick=[[3]], thorough=[[5]], asserts=TOML, covers=[1, 2]),
          dict(crate='workspace', entry='h_calls', quick=[[16]], thorough=[[24]], asserts=TOML, covers=[1, 2, 3]),
          dict(crate='workspace', entry='h_anything', quick=[[24, 12]], thorough=[[32, 16]], asserts=TOML, covers=[1, 2]),
          dict(crate='workspace', entry='h_pattern', quick=[[4]], thorough=[[6]], asserts={**TOML, 23: 'an invalid pattern is accepted, or a valid one rejected'}, covers=[1, 2]),
          dict(crate='workspace', entry='h_key', quick=[[2]], thorough=[[3]], asserts=TOML, covers=[1, 2])])
A_C12 = {30: 'broken configuration not reported, or an error without one', 31: 'not the nearest configuration', 32: 'a file of another name is taken for configuration (or the right one is not)', 33: 'is_air_toml'}
PROPS['C12'] = dict(
    bounds=dict(quick='4 directories (a chain of three and a sibling) each with one of 4 contents (nothing, air.toml, .air.toml, both) and 1 to 2 looked-up paths out of 16, and with one of 7 contents (also directories of that name and a broken file) and 1 path; names of the configuration file with up to 1 byte replaced by up to 1',
                thorough='7 contents and 2 paths; 2 bytes'),
    outside='deeper trees; symbolic links; unreadable files',
    stubs='files are those of the engine\'s file system model, or of a scratch directory natively',
    runs=[dict(crate='workspace', entry='h_nearest', quick=[[4, 2], [7, 1]], thorough=[[7, 2]], asserts=A_C12, covers=[2, 3]),
          dict(crate='workspace', entry='h_config_name', quick=[[1]], thorough=[[2]], asserts=A_C12, covers=[1, 2])])
A_C13 = {30: 'configuration not read', 40: 'an error', 41: 'something else is found', 42: 'wrong decision about the file in the directory', 43: 'wrong decision about the outer file', 44: 'found more than once'}
PROPS['C13'] = dict(
    bounds=dict(quick='a tree with a directory, a file in it and a file beside it, searched from any of its 4 paths: names any of up to 4 to 6 bytes, or special names with 2 bytes edited; exclude patterns and .gitignore lines of 6 forms over names of up to 3 characters',
                thorough='longer names and edits'),
    outside='names which start and end with a dot; symbolic links; larger trees; .ignore files and global git configuration',
    stubs='files are those of the engine\'s file system model, or of a scratch directory natively; globset as for C05',
    runs=[dict(crate='workspace', entry='h_walk', quick=[[2, 3, 0], [2, 4, 1], [0, 6, 2]], thorough=[[3, 4, 0], [3, 5, 1], [0, 7, 2]], asserts=A_C13, covers=[1, 2, 3]),
          dict(crate='workspace', entry='h_threads', quick=[[3]], thorough=[[4]], asserts={45: 'a file is lost or found twice', 46: 'an error is lost or found twice'}, covers=[1, 2]),
          dict(crate='workspace', entry='h_exclude', quick=[[3]], thorough=[[4]], asserts=A_C13, covers=[1, 2, 3]),
          dict(crate='workspace', entry='h_git', quick=[[3]], thorough=[[4]], asserts=A_C13, covers=[1, 2, 3])])
A_C14 = {1: 'wrong contents of a file', 2: 'wrong exit status', 3: 'wrong exit status with --check', 4: 'not exactly the files which would change are listed', 5: 'output on standard output', 6: 'files appeared or disappeared', 7: 'exit code'}
PROPS['C14'] = dict(
    bounds=dict(quick='a project with 4 or 5 files, one of them with any contents of up to 2 bytes and another with one of 7 contents, 4 configurations, 8 sets of relative or absolute paths, --check and --force',
                thorough='contents of up to 3 bytes'),
    outside='parsing of the command line; colours; file system errors other than missing files; the wording of messages',
    stubs='files are those of the engine\'s file system model, or of a scratch directory natively; the formatter and the parser are stand-ins over a mini language (dep/air_r_formatter keeps the real options and context, shims/air_r_parser): they drop blanks, write line ends and indentation by the options, and fail on given characters; biome_* crates are stand-ins; globset as for C05',
    runs=[dict(crate='cli', entry='h_paths', quick=[[2]], thorough=[[3]], asserts=A_C14, covers=[1, 2, 3, 4, 5])])
A_C15 = {6: 'files appeared or disappeared', 7: 'exit code', 10: 'a file was changed', 11: 'wrong exit status', 12: 'output in spite of an error', 13: 'wrong exit status for a path that is left alone', 14: 'the text of a path that is left alone is not passed through', 15: 'failure not reported', 16: 'output in spite of an error', 17: 'wrong exit status', 18: 'wrong output'}
PROPS['C15'] = dict(
    bounds=dict(quick='any input of up to 2 bytes, 9 relative or absolute paths, 4 configurations, --check, --force and further paths',
                thorough='inputs of up to 3 bytes'),
    outside='parsing of the command line; whether an input that is not UTF-8 is passed through for a path that is left alone',
    stubs='files are those of the engine\'s file system model, or of a scratch directory natively; the formatter and the parser are stand-ins over a mini language (dep/air_r_formatter keeps the real options and context, shims/air_r_parser): they drop blanks, write line ends and indentation by the options, and fail on given characters; biome_* crates are stand-ins; globset as for C05',
    runs=[dict(crate='cli', entry='h_stdin', quick=[[2]], thorough=[[3]], asserts=A_C15, covers=[1, 2, 3, 4, 5, 6])])
A_C16 = {1: 'wrong text after opening', 2: 'wrong line ending', 3: 'wrong text after a change', 4: 'wrong version', 5: 'the line index is not that of the text', 6: 'the tree is not that of the text'}
PROPS['C16'] = dict(
    bounds=dict(quick='texts of up to 1 to 3 characters (any ASCII, two- and four-byte characters, line ends), 1 to 2 changes of any range or the whole text, in one or several notifications, with texts of up to 1 to 2 characters, both encodings, \\n or \\r\\n',
                thorough='texts of up to 4'),
    outside='longer texts and histories; lone \\r; ranges that are reversed or not positions of the text; UTF-32',
    stubs='line index and text types of biome are stand-ins (shims/biome_line_index); tower-lsp only lends its types',
    runs=[dict(crate='sync', entry='h_sync', quick=[[1, 1, 2], [3, 1, 1], [2, 2, 1]], thorough=[[2, 1, 2], [4, 1, 1], [3, 2, 1]], asserts=A_C16, covers=[1, 2, 3])])
A_C17 = {10: 'no edits', 11: 'edits overlap or lie outside of the text', 12: 'the edits lead to another text', 13: 'the difference leads to another text', 14: 'range rejected', 15: 'range means another text', 20: 'edits applied wrongly'}
PROPS['C17'] = dict(
    bounds=dict(quick='texts of up to 2 to 3 characters (as for C16), any result of the comparison, any range; sets of 2 edits with texts of up to 1 character in any order',
                thorough='up to 4 characters; 3 edits'),
    outside='longer texts; lone \\r; edits that overlap',
    stubs='line index and text types of biome are stand-ins (shims/biome_line_index); tower-lsp only lends its types; the comparison (dissimilar) is a stand-in which returns any correct difference',
    runs=[dict(crate='sync', entry='h_edits', quick=[[3, 2]], thorough=[[3, 3]], asserts=A_C17, covers=[1, 2, 3]),
          dict(crate='sync', entry='h_replace', quick=[[3, 1]], thorough=[[4, 2]], asserts=A_C17, covers=[1, 2]),
          dict(crate='sync', entry='h_apply', quick=[[2, 2]], thorough=[[3, 2], [2, 3]], asserts=A_C17, covers=[1])])
A_LSP = {1: 'edits for an excluded file or for a text with parse errors', 2: 'formatter error not reported', 3: 'an error', 4: 'no edits', 5: 'edits overlap or are not within the text', 6: 'wrong text', 7: 'a document that is not open is not an error', 8: 'something changed although nothing is selected',
         21: 'a document that is not open is not an error', 22: 'settings are sent although the client does not want them', 23: 'settings are sent for a document without', 24: 'settings of a document are not sent', 25: 'wrong settings are sent', 26: 'wrong settings are sent',
         60: 'initialization fails', 61: 'wrong level of the logs after initialization', 62: 'wrong level of the logs of dependencies', 63: 'something is registered too early', 64: 'no answer', 65: 'not all changes are watched', 66: 'something else is registered', 67: 'files are watched although the client cannot, or not although it can', 68: 'not every air.toml is watched',
         69: 'configuration is registered for although the client cannot, or not although it can', 70: 'a setting is not registered for', 71: 'the client is asked although it does not answer, or not although it does', 72: 'a setting of a document is not asked for', 73: 'a setting is not asked for', 74: 'wrong level of the logs after an answer', 75: 'wrong level of the logs later',
         80: 'capabilities', 81: 'capabilities', 82: 'capabilities', 83: 'position encoding', 84: 'position encoding not offered', 90: 'the server hangs', 91: 'a request was dropped', 92: 'shutdown fails'}
LSP_STUBS = ('tower-lsp (types and the server trait; the transport and JSON are not modelled), tokio (tasks of one thread and channels), tracing, biome_* and air_r_* crates except the options of the formatter are stand-ins (shims/): the formatter and the parser are those of C14, trees are those of '
             'a mini language; the comparison of texts (dissimilar) returns any correct difference; files are those of the engine\'s file system model, or of a scratch directory natively')
PROPS['C18'] = dict(
    bounds=dict(quick='texts of up to 3 characters, or 1 and a change with up to 2 (any ASCII, four-byte characters, line ends), files and notebook cells, both position encodings, 3 configurations; and: one text with any letter, 2 nested folders with 6 and 2 configurations, open or not, opened before or after the start, 8 kinds of '
                'documents, any tab size except 4 to 23, tabs or spaces',
                thorough='texts of up to 4 characters, changes with up to 2'),
    outside='longer texts; the formatter itself; the JSON that goes over the wire; other kinds of URLs',
    stubs=LSP_STUBS,
    runs=[dict(crate='lsp', entry='h_format', quick=[[3, 0], [1, 2]], thorough=[[4, 0], [2, 2]], asserts=A_LSP, covers=[1, 2, 3, 4]),
          dict(crate='lsp', entry='h_which', quick=[[]], asserts=A_LSP, covers=[1, 2, 3])])
PROPS['C19'] = dict(
    bounds=dict(quick='any 3 events after the start, with 2 folders (beside each other, where both may be opened or closed at once, or nested), 3 or 2 documents, of which one may be open at the start, 4 contents of each air.toml or .air.toml with any line width of 200 to 299, notifications in which another file comes before or after',
                thorough='any 4 events'),
    outside='longer histories; more folders; events of which the server is not notified; notifications of the file system that come late',
    stubs=LSP_STUBS,
    runs=[dict(crate='lsp', entry='h_settings', quick=[[3, 0], [3, 1]], thorough=[[4, 0], [4, 1]], asserts=A_LSP, covers=[1, 2, 3])])
PROPS['C20'] = dict(
    bounds=dict(quick='any text of up to 3 characters, and 5 patterns (nested braces, comments, blank lines, four-byte characters) with up to 1 character in each of up to 3 places (any ASCII), any selection, 5 combinations of configuration, encoding and line ending, formatter and parse errors',
                thorough='texts of up to 4 characters; up to 2 characters in a place'),
    outside='longer texts; selections that are reversed; the syntax of R: lists of expressions in a mini language take its place',
    stubs=LSP_STUBS,
    runs=[dict(crate='lsp', entry='h_range', quick=[[0, 3], [1, 1], [2, 1]], thorough=[[0, 4], [1, 2]], asserts=A_LSP, covers=[1, 2, 3, 4])])
PROPS['C21'] = dict(
    bounds=dict(quick='one document, any 3 messages of 8 kinds, or 4 of 3 kinds, after the start and the opening, any order of the tasks that are ready, from 3 clients (one answers wrongly, one too little)',
                thorough='any 4 messages of 8 kinds, or 5 of 3 kinds'),
    outside='longer histories; tasks on several threads at once (the handlers run one after the other); the transport; requests before initialization and after shutdown, which tower-lsp handles',
    stubs=LSP_STUBS,
    runs=[dict(crate='lsp', entry='h_schedule', quick=[[3, 8]], thorough=[[4, 8]], asserts=A_LSP, covers=[1, 2, 3]),
          dict(crate='lsp', entry='h_schedule', quick=[[4, 3]], thorough=[[5, 3]], asserts=A_LSP, covers=[2, 3])])
A_C22 = {1: 'valid under the schema but rejected', 2: 'accepted but not valid under the schema'}
PROPS['C22'] = dict(
    bounds=dict(quick='each of the 11 options with integers of up to 3 digits or within 10 of 2^8, 2^16, 2^16 + 320, 2^32 and 2^64, of either sign, strings with up to 1 byte of one of 9 words replaced by up to 1, a number with a fraction, booleans, lists of strings and of other things, tables; every option and `format` with up to 1 byte of its name replaced by up to 1, in [format], at the top level, in a table of any name one byte from `format`, and as a table below [format]; every key of up to 24 lower case letters with up to two - or _, and every such word of up to 12; `format` of every type',
                thorough='4 digits; 2 bytes'),
    outside='several options at once (the schema has no keyword which relates them); the glob syntax of `exclude`; dates, numbers like 2.0, other spellings of the same TOML',
    runs=[dict(crate='schema', entry='h_value', quick=[[3, 1]], thorough=[[4, 2]], asserts=A_C22, covers=[1, 2]),
          dict(crate='schema', entry='h_anything', quick=[[24, 12]], thorough=[[32, 16]], asserts=A_C22, covers=[1, 2]),
          dict(crate='schema', entry='h_keys', quick=[[1]], thorough=[[2]], asserts=A_C22, covers=[1, 2]),
          dict(crate='schema', entry='h_format', quick=[[]], asserts=A_C22, covers=[1, 2])])
PROPS['C23'] = dict(
    bounds=dict(quick='5 offers of position encodings, all combinations of what the client can do with configuration, registrations and watched files, or nothing said about them; AIR_LOG_LEVEL, the initialization options and the answer about air.logLevel each missing, a level, or (one of them) a level with up to 1 byte replaced by up to 1, or of a wrong type; AIR_DEPENDENCY_LOG_LEVELS set or not',
                thorough='levels with 2 bytes replaced by up to 2'),
    outside='other levels of dependencies than two fixed ones; where messages are written to; an answer null after a level in the initialization options (the documentation allows both readings)',
    stubs=LSP_STUBS + '; tracing-subscriber keeps the filter in force',
    runs=[dict(crate='lsp', entry='h_setup', quick=[[1]], thorough=[[2]], asserts=A_LSP, covers=[1, 2, 3])])
A_C24 = {1: 'an error is reported wrongly', 2: 'another node', 3: 'something is missing or superfluous in a node', 4: 'another token', 5: 'a token is elsewhere', 6: 'a token has another text', 10: 'something is lost or elsewhere',
         11: 'another text', 12: 'a comment is lost or invented', 13: 'a comment belongs to another token', 14: 'a line break after a token', 15: 'not one line break', 16: 'whitespace with something else in it', 17: 'the tree has another text'}
PROPS['C24'] = dict(
    bounds=dict(quick='every program which differs from the one-word program in at most 3 choices (construct, operator, literal, number of expressions, parameters, arguments, defaults, names, holes, byte order mark); programs of 1 choice with any 2 bytes of blanks, line breaks and semicolons, around up to one comment (ending in \\n or \\r\\n, with any ASCII character), in any one gap; programs of 3 choices with a comment in any one gap; the same with 1 choice and 1 byte when there is an error',
                thorough='4 choices; 3 bytes around up to 2 comments, two gaps at once'),
    outside='deeper programs; a lone carriage return before or after a comment; whether blanks lead or trail a token; which texts have errors, and trees of tree-sitter with errors in them (air does not look into them)',
    stubs='tree-sitter and tree-sitter-r: trees come from the generator, by the published grammar; biome_parser, biome_rowan, biome_text_size, biome_unicode_table: stand-ins written after their documented behaviour (shims/r); air_r_syntax, air_r_factory and air_r_parser are real',
    runs=[dict(crate='syntax', entry='h_shape', quick=[[3]], thorough=[[4]], asserts=A_C24, covers=[1]),
          dict(crate='syntax', entry='h_trivia', quick=[[1, 1, 2, 1], [3, 1, 0, 1]], thorough=[[1, 1, 3, 2], [1, 2, 2, 1], [3, 2, 0, 1], [4, 1, 0, 1]], asserts=A_C24, covers=[1, 2, 3]),
          dict(crate='syntax', entry='h_error', quick=[[1, 1, 1, 1]], thorough=[[1, 1, 2, 1]], asserts=A_C24, covers=[1])])
