W = 'cdtb/wad.py'
prop('C01', 'A WAD directory is decoded record by record, for every format version',
     """Opening a WAD archive of version 1.x, 2.x or 3.x yields exactly one entry per directory record, in file order, whose path hash, offset,
     sizes, storage type, subchunk count and position, duplicate flag and checksum are those stored in the record for that version (24-bit subchunk
     positions since 3.4). Another magic or major version, or a directory shorter than announced, is rejected with an error. An entry gets a path, and
     the extension of this path, if and only if its hash is in the hash table.""",
     ['inputs'], 'every header and record byte, every version pair, every hash table',
     'The tests open no WAD file; the layouts differ in single bits and fields which samples do not exercise together.',
     [W], [('Wad.parse_headers', W), ('WadFileHeader.__init__', W), ('Wad.resolve_paths', W)])

prop('C02', 'WAD entries are read back with exactly the stored content',
     """The content of a WAD entry is the bytes at its offset for its compressed size, stored raw (type 0), gzip-compressed (1), zstd-compressed (3), or split in
     subchunks (4), each subchunk being raw when its two sizes are equal and zstd-compressed otherwise; redirections (2) have no content, and other types are errors.
     With a subchunk table (taken from the entry whose path ends with `.subchunktoc`), an entry is only returned if every subchunk lies in the entry and matches its checksum, and is the
     concatenation of exactly its own subchunks, in order. An entry with unreadable subchunks is skipped without output and without affecting other entries.""",
     ['inputs'], 'every entry type, offset, size, subchunk table and content',
     'No test reads WAD data; subchunk corruption and odd layouts only occur in the field.',
     [W], [('WadFileHeader.read_data', W), ('Wad.load_subchunk_toc', W), ('Wad.read_file_data', W), ('WadFileHeader.extract', W)])

prop('C03', 'Extracted WAD files get distinct, valid names',
     """Extracting a WAD writes each readable entry to its path below the output directory, with the same content; an entry without known path goes to
     `unknown/<16-digit hash>` followed by its extension when it is known. A path without extension gets the `.cdtb` suffix (followed by the guessed extension, if any), and a basename of
     250 characters or more is shortened to at most 250 characters while keeping its directory, its extension and the entry's full hash. Without overwriting, files which already
     exist are left untouched; a name which the file system refuses is skipped without stopping the extraction.""",
     ['inputs'], 'every hash, path shape, extension, basename length and state of the output directory',
     'The tests never extract a WAD; name limits only show on rare paths.',
     [W], [('Wad.sanitize_paths', W), ('Wad.set_unknown_paths', W), ('Wad.extract', W)])

prop('C04', 'File extensions are guessed from content, first match wins',
     """The guessed extension of a content is the one of the first entry of the magic number list which matches it, `json` when no magic number matches and the content is a JSON document,
     and none otherwise; guessing never fails, whatever the content. Guessing extensions of a WAD gives each entry without extension the guess for its own content, reusing an earlier guess for the same path
     hash, and never changes extensions which are already known.""",
     ['inputs', 'histories'], 'every content (length and bytes), and sequences of archives sharing hashes',
     'Tests do not cover guessing at all; matches overlap (JFIF in the middle, `r3d2` prefixes).',
     [W], [('WadFileHeader.guess_extension', W), ('Wad.guess_extensions', W)])

R = 'cdtb/rstfile.py'
prop('C05', 'String tables decode to the right text for every key',
     """Parsing an RST string table of version 2 to 5 gives one entry per record, whose key is the hash part of the record for the hash width of the table (40, 39 or 38 bits, depending on version and game version) and whose
     value is the NUL-terminated text at its offset, decoded as UTF-8 (invalid bytes replaced), or the base64 form of an encrypted text. Looking up a string by its key text (case-insensitively) or by its hash finds exactly the entry with that hash, truncated to the width of the table; missing keys raise
     or give the default. Other magic codes or versions are rejected.""",
     ['inputs'], 'all versions and hash widths, all record bytes and texts, all lookup keys',
     'No test covers RST files; bit widths and offsets need all bit patterns.',
     [R], [('RstFile', R), ('key_to_hash', R)])

B = 'cdtb/binfile.py'
prop('C06', 'BIN files decode to the tree which is stored',
     """Parsing a property BIN file yields its version, linked files, entries (path hash, type hash) and, for every field, the name hash, the declared type and the stored value, for every value type including nested
     lists, options, maps, structures and embedded structures; bytes of one value are never taken for another one. Patch files (PTCH) give in addition their patch section. A file with a wrong magic number, an unknown value type, an entry whose size is not the declared one, or cut within its entries is rejected with an error.""",
     ['inputs'], 'every value of every type, nesting of containers, entry and field hashes',
     'No test covers BIN files; the decoder dispatches over 25 types whose layouts only a full input space distinguishes.',
     [B], [('BinReader', B), ('BinFile', B)])

prop('C07', 'BIN value types are translated for the game version of the file',
     """The numeric type codes of a BIN file are interpreted in the numbering of the game version it comes from: two renumberings took place and, with the version given, each code designates the same kind of
     value as in a file written in the current numbering. Without game version, the current numbering is used.""",
     ['inputs', 'configurations'], 'every type code under every game version',
     'No test covers it; an off-by-one in a mapping or in a version limit only shows for some codes and versions.',
     [B], [('BinReader type mapping', B), ('BinFile.__init__', B)])

prop('C08', 'BIN names are matched by case-insensitive hash',
     """A field, entry or type of a BIN file can be designated by its name or by its hash, with the same result: names are hashed with 32-bit FNV-1a over their lowercase form. Two hash values (of the same kind) are equal if and only if their hashes are, and compare and hash as integers do; a hash without known name equals exactly the texts which have this hash, a hash with a known name equals its name.
     Indexing, `in`, `get`, `getv` and `get_path` on structures and entries agree with each other, and only find fields which exist; assignment replaces the field of the name, or adds it.""",
     ['inputs'], 'every name, every hash value',
     'No test covers it; hash identities hold over all strings.',
     [B], [('compute_binhash', B), ('BinHashBase', B), ('BinObjectWithFields', B)])

prop('C09', 'BIN files serialise completely to JSON',
     """The JSON form of a BIN file contains each entry and each field exactly once, under its name when the hash is known and under `{hash}` otherwise, with the values of all types rendered without loss (hashes as names or `{hash}`,
     containers as arrays, maps (of scalar or hash keys) as objects, structures with their `__type`), linked files as `__linked` and patches as `__patches`; entries of one file, and fields of one object, having distinct names.""",
     ['inputs'], 'all value types, nesting, known and unknown hashes',
     'No test covers it.',
     [B], [('to_serializable', B)])

S = 'cdtb/sknfile.py'
prop('C10', 'Skin meshes decode and convert to OBJ faithfully',
     """Parsing an SKN file of version 0, 1, 2 or 4 gives its submeshes with exactly their vertices (position, bones, weights, normal, texture coordinates, color and tangent if any) and indices. Indices count from 1 within the vertices of the submesh, whether the file has them relative to all vertices or (when lower than the first vertex of the submesh) relative to the submesh.
     The OBJ conversion of a submesh lists exactly its vertices, with their positions, texture coordinates and normals, and one well-formed face per triangle in order, with these indices. Another magic number is rejected.""",
     ['inputs'], 'all versions, submesh layouts, indices',
     'No test covers SKN files.',
     [S], [('SknFile', S), ('SknFile.to_obj', S)])

PA = 'cdtb/patcher.py'
prop('C11', 'Release manifests decode to the right files, chunks and languages',
     """Parsing a release manifest gives each file once, under its full path (directory names down from the root, then its name), with its size, link target, languages and the exact sequence of chunks it is made of; each chunk knows its bundle, its
     offset (the sum of the sizes of the preceding chunks of the bundle), and its sizes. Optional fields which are absent get their default. Manifests of another magic or version are rejected.""",
     ['inputs'], 'all table contents, offsets, optional fields, directory trees and language masks',
     'No test parses a manifest; the format is an offset graph with optional fields.',
     [PA], [('PatcherManifest.parse_rman', PA), ('PatcherManifest._parse_field_table', PA)])

prop('C12', 'Language filters select exactly the files of the requested languages',
     """Filtering files by language gives all files for `True`, exactly the files without locale flag for `False`, and exactly the files flagged with the language for a language name (case-insensitive) or with one of the languages for a list of names; a file is never selected twice and
     the order is kept. Downloads, extractions and exported path lists all use the same selection.""",
     ['inputs'], 'every combination of flags, every language argument',
     'Tests do not cover the filter; flags which look like locales need all texts.',
     [PA], [('PatcherFile.langs_predicate', PA), ('PatcherManifest.filter_files', PA)])

prop('C13', 'Files extracted from bundles have the right content, whatever happened before',
     """After extracting a release file, its path in the storage holds the concatenation of its decompressed chunks, in order, for any state of the storage left by earlier successful or failed runs; with symlinks enabled, files with the same chunks share one stored copy and the path is a relative
     link to it. A failing extraction (missing bundle, corrupt chunk, full disk) raises an error and leaves no partial file which a later run takes for complete. A file which is complete is not extracted again unless overwriting is requested.""",
     ['inputs', 'histories', 'fault_sequences', 'crash_points'], 'all chunk lists, storage states, and every point of failure',
     'No test covers extraction; failures in the middle need fault injection at every point.',
     [PA, 'cdtb/tools.py'], [('PatcherStorage.extract_file', PA), ('PatcherReleaseElement.extract_file', PA), ('write_file_or_remove', 'cdtb/tools.py')])

prop('C14', 'Exactly the needed bundles are downloaded',
     """Downloading an element fetches each bundle which holds a chunk of a selected file (language filter, no links, not already extracted when these are skipped) once, and no other one; files which are present are not fetched again unless forced. Manifests and bundles designated by ID or by URL are stored under their ID, and URLs of another server or form are rejected. After the download,
     every selected file can be extracted. A failed or interrupted download raises an error and leaves no file behind.""",
     ['inputs', 'histories', 'fault_sequences'], 'all manifests within bounds, storage states, HTTP failures',
     'No test covers it; needs all combinations of shared bundles and present files.',
     [PA, 'cdtb/storage.py'], [('PatcherReleaseElement.bundle_ids', PA), ('PatcherReleaseElement.download_bundles', PA), ('Storage.download', 'cdtb/storage.py')])

prop('C15', 'Release history records each new release once, and lists newest first',
     """Fetching the latest update adds a release with the current client and game manifest URLs if and only if they differ from the last recorded release, and never alters recorded ones (the clock being strictly increasing); failures while fetching leave the history unchanged. Stored releases are
     listed from the latest one, each once, ignoring foreign entries and incomplete releases; a release gives an element for each manifest URL it has.""",
     ['inputs', 'histories', 'fault_sequences'], 'all sequences of releases and failures within bounds, all directory contents',
     'No test covers it.',
     [PA], [('PatcherStorage.fetch_latest_update', PA), ('PatcherStorage.iter_releases', PA), ('PatcherRelease.elements', PA)])

prop('C16', 'The patch version of a release is found, cached and never guessed wrong',
     """The patch version of an element is the one stated by its own metadata file (`system.yaml` branch for the client, `content-metadata.json` version for the game), truncated to two numbers; for PBE it is always `main`. It is the same when read again from the cache, and a
     failure to retrieve it never leaves a cached value which changes a later answer.""",
     ['inputs', 'histories', 'fault_sequences'], 'all metadata texts within bounds, cache states, failures',
     'The tests do not cover it; texts vary freely.',
     [PA, 'cdtb/storage.py'], [('PatcherReleaseElement.patch_version', PA), ('get_system_yaml_version', 'cdtb/storage.py'), ('get_content_metadata_version', 'cdtb/storage.py')])

ST = 'cdtb/storage.py'
prop('C17', 'Versions compare numerically and consistently',
     """Version numbers are ordered component by component as numbers (8.9 < 8.10), the order is total and transitive, exactly one of <, == and > holds for numeric versions in canonical form, equality agrees with hashing, and equality with a string or tuple (in canonical form) agrees with equality with the version built from it. Patch versions
     with more than two components are truncated to two, fewer are rejected, `main` equals only itself, and the integer form orders as the versions do (patch numbers below 100).""",
     ['inputs'], 'all version tuples and texts within bounds',
     'Tests compare a few samples.',
     [ST], [('BaseVersion', ST), ('PatchVersion', ST)])

prop('C18', 'Patches are grouped and selected correctly from elements',
     """From elements listed latest first, the patches are the runs of consecutive elements of equal version, each with the first (latest) element of each name and nothing else. Selecting a patch or an element by version finds the first match, selecting without version the latest one, and nothing is
     found when there is none; elements with different versions are never mixed in a patch. Component strings (`patch=`, `game=`, `client=`, with a version, a version followed by a dot, `main` or nothing) select accordingly, and malformed ones are rejected.""",
     ['inputs', 'histories'], 'all element sequences within bounds and all component strings',
     'Tests check some component strings with a mock; element sequences are not varied.',
     [ST], [('Storage.patches', ST), ('Storage.patch', ST), ('Storage.patch_element', ST), ('parse_storage_component', ST), ('Patch.latest', ST)])

T = 'cdtb/tools.py'
prop('C19', 'A failed write leaves nothing behind',
     """When the code which writes a protected output (file or directory) fails at any point, with any exception, the output does not exist afterwards and the original exception is raised; when it succeeds, the output has exactly the data written. Files outside of the output are not touched, and failing to clean up
     does not hide the original error.""",
     ['fault_sequences', 'crash_points', 'inputs'], 'every file system operation failing, every exception type, before or after data is written',
     'No test injects failures.',
     [T], [('write_file_or_remove', T), ('write_dir_or_remove', T)])

RA = 'cdtb/rads.py'
prop('C20', 'RADS packages are extracted with the right content for any chunking',
     """Extracting a RADS package writes each of its files with exactly the bytes at its offset and size in its package, decompressed when it is stored compressed, for any order of files and any way the HTTP stream splits the data. Files which are already extracted are not requested again, and
     a truncated or failing stream raises an error and leaves no partial file.""",
     ['inputs', 'fault_sequences'], 'all file layouts and stream chunkings within bounds, all failures',
     'Tests only extract small samples with a mock.',
     [RA, ST], [('RadsPackage.extract / BIN download', RA), ('RequestStreamReader', ST)])

prop('C21', 'RADS solutions, projects and patch versions are those of their manifests',
     """The manifests of RADS solutions and projects give exactly the projects of each language, the files with their paths, which they declare; a language selection gives exactly the projects of these languages (by name or value), or the required ones. Patch elements are generated from the latest version, merging game and client versions in
     decreasing order, without losing or repeating any, leaving out versions without patch. The patch version is the one of the game files (`main` for PBE), the same when read from the cache, and a failure to retrieve it raises an error and never changes a later answer.""",
     ['inputs', 'histories', 'fault_sequences'], 'all manifest contents and version lists within bounds, language selections, failures',
     'Tests check a few recorded versions.',
     [RA], [('RadsSolutionVersion.dependencies', RA), ('RadsSolutionVersion.projects', RA), ('RadsStorage.patch_elements', RA), ('RadsSolutionVersion.patch_version', RA)])

prop('C22', 'Storage configuration resolves as documented',
     """A storage designation resolves in the documented order: an existing directory by its `cdtb.storage.conf` or else by guessing from its content, an existing file as a configuration file, `type:path` as such, and another path as a patcher storage. Relative paths in a configuration file are relative
     to this file; the configuration always has a type and a path, options reach the storage, and unknown types or configurations without type are rejected.""",
     ['configurations', 'inputs'], 'all file system situations and designations within bounds',
     'Tests cover some designations.',
     [ST, PA, RA], [('storage_conf_from_path', ST), ('load_storage_conf', ST), ('Storage.from_conf', ST)])

E = 'cdtb/export.py'
prop('C23', 'Reduced common paths cover exactly the common files',
     """Reducing a list of files shared with a previous patch to the largest shared directories gives paths which, expanded in the previous patch, cover every shared file exactly once, and never cover a file which is not shared: not one which the previous patch has in addition, nor one which has to be
     extracted. No reduced path lies below another one.""",
     ['inputs'], 'all file trees within bounds',
     'Tests check three trees.',
     [E], [('reduce_common_paths', E), ('reduce_common_trees', E), ('paths_to_tree', E)])

prop('C24', 'Incremental filtering keeps exactly new and changed files',
     """Filtering an export with a previous one removes exactly the files which are identical in both (same stored plain file; same archive file; same path hash with the same checksum and the same export path in the archive of the same name; a file without checksum is never identical), so that every file which is new or changed is still exported. The previous
     export is not modified, and files of archives or plain files which the previous one does not have are all kept.""",
     ['inputs'], 'all pairs of exports within bounds: hashes, checksums (including missing ones), paths',
     'No test covers it.',
     [E], [('Exporter.filter_exporter', E), ('Exporter.filter_export_paths', E)])

prop('C25', 'Cleaning an output directory removes exactly what is not kept',
     """Cleaning an export directory removes every file and link which is not in the kept files or links, and nothing else: kept files, files below kept directories, and everything outside of the output directory (including the targets of links) stay untouched. Directories left
     empty by the removal are removed (as well as their parents which become empty); links are never followed.""",
     ['inputs', 'histories'], 'all output trees and kept sets within bounds',
     'No test covers it; a wrong deletion needs a particular tree.',
     [E], [('Exporter.clean_output_dir', E), ('Exporter.walk_output_dir', E)])

prop('C26', 'Converters produce exactly the announced files, or none',
     """For each exported file, the files which exist after a successful conversion are exactly those announced for it, wherever they are used to decide about links, cleaning and skipping. A copy has the same content as the source; a conversion which fails leaves no partial or empty
     converted file behind, is reported, and does not stop the export of other files.""",
     ['inputs', 'fault_sequences'], 'all converters and paths, content accepted or refused by the libraries',
     'No test covers converters.',
     [E], [('FileConverter subclasses', E), ('Exporter._export_wad', E), ('Exporter._export_plain_file', E)])

prop('C27', 'An incremental export with links shows the same files as a full export',
     """Exporting a patch against an already exported previous patch, with links, gives an output directory in which every file of the patch is reachable with the content a full export gives, and no other file; the export of the previous patch is not modified. The written lists give exactly the exported
     paths, the links and the unknown hashes. Exporting again changes nothing.""",
     ['inputs', 'histories'], 'all pairs of patches within bounds: files added, removed, changed, moved between directories',
     'No test runs an export.',
     [E], [('CdragonRawPatchExporter.process', E), ('CdragonRawPatchExporter._create_symlinks', E)])

prop('C28', 'TEX textures convert to the equivalent DDS image',
     """For every TEX texture of a supported format, the DDS form has the same width and height, the pixel format which corresponds to the TEX format, and exactly the pixel data of the texture, restricted to the largest mipmap if it has several. Other data is refused with
     a conversion error.""",
     ['inputs'], 'all headers, sizes, formats and contents within bounds',
     'No test covers TEX files; mipmap sizes depend on rounding.',
     [E], [('TexConverter.tex_to_dds', E)])

prop('C29', 'Atlas and champion skin tables decode faithfully',
     """Atlas tables, in both the hash-based and the text-based format, give for each texture its path (`{hash}` if unknown), its atlas in exported form (lowercase, `.png` for DDS and TEX textures) and its coordinates. Champion skin tables give for each champion each skin with its name and whether it is a prestige skin. Wrong
     magic codes and truncated tables are rejected.""",
     ['inputs'], 'all tables within bounds',
     'No test covers them.',
     [E, T], [('AtlasInfoConverter.parse_atlasinfo', E), ('ChampionSkinInfoConverter.parse_championskininfo', E), ('convert_cdragon_path', T)])

prop('C30', 'Exported paths follow the layout of raw.communitydragon.org',
     """The set of exported files and their paths are those of the documented layout for the patch version: executables and other excluded files are left out, game files go below `game/`, language-specific archives go to their language directory since patch 14.4, and other client files keep their
     plugin path; files of different languages, or of the client and of the game, are never mapped to the same place.""",
     ['inputs', 'configurations'], 'all paths within bounds, all patch versions',
     'No test covers it.',
     [E], [('CdragonRawPatchExporter._transform_exported_files', E)])

H = 'cdtb/hashes.py'
prop('C31', 'Hash lists survive saving and loading',
     """Saving hashes and loading them again gives the same mapping, whatever the texts contain (spaces, non-ASCII) short of line breaks; lines are sorted by text, with hashes in fixed-width hexadecimal. Loading is cached until forced, and a missing file is
     reported as such. A failing save is reported.""",
     ['inputs', 'histories'], 'all mappings within bounds',
     'No test covers hash files.',
     [H], [('HashFile.load', H), ('HashFile.save', H)])

prop('C32', 'Guessed hashes are always right',
     """Whatever candidates are tried, a hash is recorded as known only with a text whose hash it is, only if it was unknown before, and it is no longer unknown afterwards; known hashes are never changed or lost. A candidate whose hash is unknown is always found, by every way of checking.""",
     ['inputs', 'histories'], 'all candidate sequences and hash sets within bounds',
     'No test covers guessing.',
     [H], [('HashGuesser.check_iter', H), ('HashGuesser.is_known', H), ('HashGuesser.check', H)])

prop('C33', 'Hash files are found and updated as documented',
     """The hash directory is the first one of the documented list of environment variables and default locations. Updating a hash file downloads it when it is missing or older than the published one, leaves it alone otherwise, and a failed update keeps no partial file.""",
     ['configurations', 'fault_sequences'], 'all environments, dates and failures',
     'No test covers it.',
     [H], [('_default_hash_dir', H), ('update_default_hashfile', H)])

prop('C34', 'Path guessing tries every candidate it promises',
     """Each guessing strategy tries exactly the candidates of its description built from the known paths: basenames in all known directories, substituted words and numbers at every position of the basename, other extensions, other languages, regions and skins. Known parts are never corrupted, and a missing combination
     is never skipped.""",
     ['inputs'], 'all sets of known paths within bounds',
     'No test covers guessing.',
     [H], [('HashGuesser', H), ('LcuHashGuesser', H), ('GameHashGuesser', H)])

prop('C38', 'Paths written in files are all found',
     """Searching an archive tries, for each of its readable files, every path its content designates: in game archives, length-prefixed strings of bin files, names of preload files, includes of shaders, lines of atlases, and path-like strings of other files, shortened to their length when one precedes them; in LCU archives, URL-like references to frontend, data and asset
     files, relative paths, names with an extension, templates and source maps in each known directory, and the files which known JSON documents refer to; each with its variants (scripts, textures, shaders, characters, map files). Redirections, files which cannot be read or decoded, non-ASCII names and JSON documents of other kinds are skipped
     and never prevent the others from being searched.""",
     ['inputs'], 'all contents of the described shapes within bounds, any readable or unreadable entries',
     'No test covers the search of paths.',
     [H], [('GameHashGuesser.grep_wad', H), ('GameHashGuesser.grep_file', H), ('LcuHashGuesser.grep_wad', H), ('HashGuesser.wad_text_files', H)])

prop('C35', 'Arena data is localised completely',
     """Exporting Arena data writes, for each available (or requested) language, one file with one entry per enabled augment, whose name, description and tooltip come from the string table of this language (untranslated keys are kept), and whose
     identifiers, rarity, icons, spell values and calculations come from the game data, whatever the patch it belongs to and wherever the string tables are. A language never shows texts of another one. Augments without spell have no values.
     Data which cannot be read is reported as an error, and no file is written for a language whose table cannot be read.""",
     ['inputs', 'configurations'], 'all augment tables, string tables and languages within bounds',
     'No test covers it.',
     ['cdtb/arenadata.py', 'cdtb/tools.py'], [('ArenaTransformer.export', 'cdtb/arenadata.py'), ('ArenaTransformer.parse_augments', 'cdtb/arenadata.py'), ('stringtable_paths', 'cdtb/tools.py')])

prop('C36', 'TFT data is localised completely',
     """Exporting TFT data writes, for each available language, one file with the sets, champions, traits and items of the game data. Each complete set has the champions, traits, items and augments of its lists which exist (for the first patches, without
     set descriptions, these of the longest lists); champions have their cost, role, icons, numbers (newer fields first), ability and traits; traits have their levels with the variables of the trait and of the level; items have their components,
     traits, effects and tags. Templates are not exported. Texts come from the string table of the language, binary or textual; untranslated keys are kept. Data which cannot be read is reported as an error, and no file is written for a language whose table cannot be read.""",
     ['inputs', 'configurations'], 'all set, champion, trait, item and string tables within bounds',
     'No test covers it.',
     ['cdtb/tftdata.py', 'cdtb/tools.py'], [('TftTransformer.export', 'cdtb/tftdata.py'), ('load_translations', 'cdtb/tftdata.py'), ('stringtable_paths', 'cdtb/tools.py')])


M = 'cdtb/__main__.py'
prop('C37', 'Commands act on exactly what their arguments designate',
     """Each command acts on exactly the components, files and patches its arguments designate: `files` and `download` on each element of each component with the requested languages, `versions` on the patches having the requested element, `wad-extract` and `wad-list` on the entries selected by hash list, pattern and `--unknown`,
     `export` on the requested patch with the requested previous one (by default, the stored patch which follows it) or on all exported patches from the given one, each against the preceding one, `bin-dump` and `skn-extract` on their file with the given options. The storage is the one of `--storage`, else of `CDTB_STORAGE`, else the default one, with the requested patchline.
     Components which are malformed or not found, missing files and inconsistent options are reported as usage errors, before anything is written.""",
     ['configurations', 'inputs'], 'all argument combinations within bounds, all stored patches, archives and hash lists',
     'The tests do not run commands; wrong selections need particular argument combinations and stored states.',
     [M, E], [('main', M), ('command_export', M), ('command_wad_extract', M), ('parse_component_arg', M), ('CdragonRawPatchExporter.from_directory', E)])
