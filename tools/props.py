# Texts of the properties; executed by meta.py.

NOT_APPLICABLE = []

prop('C01',
     'Opening a yWriter project shows every field of every record exactly as the file has it, whichever fields are present or '
     'missing. Saving the unedited project keeps all of that and everything else the file holds (unknown project data, custom '
     'fields, variables, IDs, and orders), and saving again changes no byte. Saving the opened project to a new file stores '
     'every field there, too.',
     ['inputs'], 'all combinations of present and absent fields of all kinds of records, element counts, and orders up to the bound',
     'The tests read and write one normalized project; which subset of the about 80 optional elements is present decides which '
     'branches run, and only single subsets are sampled.',
     [YW, PY + 'model/novel.py', PY + 'model/scene.py', PY + 'model/chapter.py'],
     [('element-wise reading of optional XML elements', YW), ('rebuilding the XML tree around the existing one', YW)],
     'Exhaustive enumeration of project files by field subsets (all subsets up to size k added to an empty record or removed from '
     'a full one, all orders), each run through the real reader and writer and compared with an independent reader and model',
     'Bounded: k=2 (quick) or 3 (thorough) deviations per record from the empty and from the complete record. Trusts the XML '
     'parser of the Python standard library and the independent model of the file format in mc/checks/c01.py.',
     ['the .yw7 file', 'the opened project'])

prop('C02',
     'Any text the user can enter in any text field of a project, including markup characters, XML and CDATA delimiters, entities, '
     'bars, and template placeholders, is stored so that the project file is well-formed and every XML reader sees exactly this '
     'text. Reopening the project gives the same text back, however often it is saved.',
     ['inputs'], 'all texts up to n tokens over an alphabet of significant tokens, in every text field at once',
     'The tests use a handful of ordinary sentences; delimiters and entities in combination are never tried.',
     [YW], [('escaping of non-CDATA fields and CDATA wrapping', YW), ('cleaning the file content before parsing', YW)],
     'Exhaustive enumeration of all token strings up to a length in every text field, on the real writer and reader',
     'Bounded by text length and alphabet (32 tokens). Small-scope argument: every escaping rule of the code looks at fewer '
     'adjacent tokens than are enumerated.',
     ['the .yw7 file', 'the reopened project'])

prop('C03',
     'After any sequence of edits to an opened project (setting or clearing any attribute of any element; adding, deleting, or '
     'moving chapters, scenes, and elements), saving and reopening shows exactly the edited project. Content of the file that the '
     'program does not manage stays untouched by the edits.',
     ['histories'], 'all edit histories up to the bound, from an almost empty and from a complete project, in one session or '
     'reopened in between',
     'The tests save two fixed edits; which elements must be created, changed, or removed depends on the old and the new value of '
     'each attribute and on what was saved before.',
     [YW], [('updating the existing XML tree element by element', YW)],
     'Explicit-state exploration of edit histories: a model of the project is stepped along with the real code, which saves and '
     'reopens after every edit; every model trace is replayed on the implementation',
     'Bounded history length; the model is independent of the code under test and every transition is validated against it.',
     ['the reopened project', 'the .yw7 file'])

prop('C04',
     "The type of each chapter and scene (normal, notes, to do, unused) is read from the project file as yWriter's encoding tables "
     'define, including the encodings of older versions and the inheritance from non-normal chapters to their scenes. It is written '
     'so that yWriter and a reopened project see the same type, whatever the type was before.',
     ['inputs', 'histories'], 'the complete product of encoding elements of a chapter and up to two scenes; all chains of type changes',
     'The tests contain a few of the 24 x 8 x 8 combinations, and no chain of changes.',
     [YW], [('type encoding tables', YW)],
     'Exhaustive enumeration of the finite encoding space and of all type-change chains on the real reader and writer against the '
     'tables',
     'Complete for one and two scenes per chapter; chains bounded by length.',
     ['the .yw7 file', 'the reopened project'])

prop('C05',
     'Exporting a project to a formatted document (manuscript, proof reading, notes, to do) and importing the unchanged document '
     'leaves the project as it was: the text of every scene with all its paragraphs, quotations, emphasis, languages, comments, '
     'footnotes, and endnotes, and all titles, data, and orders.',
     ['inputs'], 'all texts up to n markup tokens, however the tags overlap, in every formatted document type',
     'The tests round-trip one reference text; whether markup survives depends on the combination and nesting of tokens within '
     'and across lines.',
     [PY + 'odt_w/odt_w_formatted.py', PY + 'odt_r/odt_parser.py', PY + 'odt_r/odt_r_formatted.py', PY + 'odt_w/odt_w_proof.py'],
     [('converting yWriter markup to ODT spans and paragraphs', PY + 'odt_w/odt_w_formatted.py'),
      ('parsing ODT text back to yWriter markup', PY + 'odt_r/odt_parser.py')],
     'Exhaustive enumeration of all token strings up to a length, each exported and imported by the real code and '
     'compared through an independent model of the markup',
     'Bounded text length and alphabet; the whole project except the scene text is compared literally.',
     ['the .yw7 file before and after'])

prop('C06',
     'Every exported text document shows each scene text as it is formatted in the project: the same characters, paragraphs with '
     'the right styles, quotations, emphasis, languages, comments, footnotes, and endnotes; inline code for other export targets '
     'does not appear in the plain export.',
     ['inputs'], 'all texts up to n markup tokens, however the tags overlap, in every kind of text document with scene contents',
     'The tests compare one document per type with a reference file.',
     [PY + 'odt_w/odt_w_formatted.py', PY + 'odt_w/odt_w_export.py', PY + 'odt_w/odt_w_proof.py'],
     [('converting yWriter markup to ODT', PY + 'odt_w/odt_w_formatted.py')],
     'Exhaustive enumeration of all token strings up to a length; every exported document is read by an '
     'independent ODF reader and compared with an independent model of the markup',
     'Bounded text length and alphabet.',
     ['the content of the exported document'])

prop('C07',
     'What is imported from a document does not depend on how the office program stores it: splitting or nesting of text runs, '
     'direct formatting instead of named styles, automatic paragraph styles, bookmarks, links, blanks as elements, character '
     'references, recorded changes, white space between the elements, additional attributes and declarations, encoding, archive layout, and where '
     'the buffers of the XML parser end.',
     ['inputs'], 'all sets of up to n storage transformations on every importable text document; buffer ends at every '
     'offset in a range',
     'The tests import documents as written by PyWriter or one office program.',
     [PY + 'odt_r/odt_parser.py', PY + 'odt_r/odt_reader.py'],
     [('event-driven parsing of the ODT content', PY + 'odt_r/odt_parser.py')],
     'Exhaustive enumeration of sets of meaning-preserving transformations of the stored document, imported by the real code; all '
     'results must be equal to the one of the unchanged document',
     'The transformation catalogue is finite (17 transformations, 6 storage options); sets up to size 2 (quick) or 3 (thorough).',
     ['the .yw7 file after the import'])

prop('C08',
     'Description documents (scenes, chapters, parts, characters, locations, items) show every description exactly once under the '
     'mark of its element, whatever the text contains, and importing the unchanged document changes nothing.',
     ['inputs'], 'all texts up to n tokens in every field of every description document',
     'The tests use one project with plain descriptions.',
     [PY + 'odt_w/odt_writer.py', PY + 'odt_w/odt_w_characters.py', PY + 'odt_r/odt_r_characters.py', PY + 'odt_r/odt_r_scenedesc.py',
      PY + 'odt_r/odt_r_chapterdesc.py'],
     [('filling the templates with converted texts', PY + 'file/file_export.py'), ('reading sections by their marks', PY + 'odt_r/odt_reader.py')],
     'Exhaustive enumeration of all token strings up to a length in every field, exported, read by an independent ODF reader, and '
     'imported by the real code',
     'Bounded text length and alphabet.',
     ['sections of the exported document', 'the .yw7 file after the import'])


prop('C09',
     'The character, location, item, and scene lists show every element of the project in its order, with exactly its data in the '
     'cells. After editing cells and adding, deleting, or moving rows, the import changes exactly these data, keeps everything that is '
     'not in the list, and the next export shows the result; however the office program stores the table (repeated, merged, and covered cells, spans, links, comments, row groups, page headers).',
     ['histories'], 'all histories of up to n row and cell edits, in one document and in successive exports and imports',
     'The tests import one fixed list of each kind; deletions, moves, empty cells, invalid values, and their combinations are not tried.',
     [PY + 'ods_w/ods_w_charlist.py', PY + 'ods_w/ods_w_scenelist.py', PY + 'ods_w/ods_writer.py', PY + 'ods_r/ods_parser.py',
      PY + 'ods_r/ods_reader.py', PY + 'ods_r/ods_r_charlist.py', PY + 'ods_r/ods_r_scenelist.py', PY + 'ods_r/ods_r_loclist.py',
      PY + 'ods_r/ods_r_itemlist.py'],
     [('reading rows by their IDs', PY + 'ods_r/ods_reader.py'), ('parsing repeated, covered, and empty cells', PY + 'ods_r/ods_parser.py')],
     'Explicit-state exploration of edit histories of the lists: a model of the project is stepped along with the real export and '
     'import after every edit; every model trace is replayed on the implementation',
     'Bounded history length (2, thorough 3) and value lists per column.',
     ['cells of the exported document', 'the .yw7 file after the import'])

prop('C10',
     'Whatever is edited in an exported text document (typing, formatting, inserting, deleting, splitting, joining, and moving '
     'paragraphs; comments, notes, lists, text boxes, images; clearing, deleting, or moving sections; writing outside of them), the import changes exactly '
     'the fields whose sections were edited, to what the document shows, and keeps everything else in the project.',
     ['histories'], 'all sequences of up to n edits in documents of every importable type',
     'The tests import one edited document per type.',
     [PY + 'odt_r/odt_parser.py', PY + 'odt_r/odt_reader.py', PY + 'odt_r/odt_r_formatted.py', PY + 'odt_r/odt_r_manuscript.py',
      PY + 'odt_r/odt_r_proof.py', PY + 'odt_r/odt_r_scenedesc.py', PY + 'odt_r/odt_r_chapterdesc.py', PY + 'odt_r/odt_r_characters.py',
      PY + 'odt_r/odt_r_locations.py', PY + 'odt_r/odt_r_items.py'],
     [('event-driven parsing of the ODT content', PY + 'odt_r/odt_parser.py'), ('merging into the existing project', PY + 'converter/yw7_converter.py')],
     'Explicit-state exploration of sequences of document edits: each edited document is read by an independent ODF reader and imported by '
     'the real code, and both results are compared',
     'Bounded number of edits (1 to 2, thorough 2 to 3) over an alphabet of some 40 edits per document type.',
     ['the .yw7 file after the import'])

prop('C11',
     'Each kind of exported document contains exactly the parts, chapters, and scenes it is for, according to their types and export '
     'switches, each once and in the order of the novel, with the right headings, dividers, marks, numbers, totals, and links, '
     'whatever the project is composed of.',
     ['inputs'], 'all chapters of up to n scenes over the product of types, levels, and switches; all ordered pairs of kinds of chapters',
     'The tests export one project; which template applies depends on the combination of chapter and scene types with five switches.',
     [PY + 'file/file_export.py', PY + 'odt_w/odt_w_export.py', PY + 'odt_w/odt_w_manuscript.py', PY + 'odt_w/odt_w_proof.py',
      PY + 'odt_w/odt_w_brief_synopsis.py', PY + 'odt_w/odt_w_notes.py', PY + 'odt_w/odt_w_todo.py', PY + 'ods_w/ods_w_scenelist.py'],
     [('choosing templates by types and switches', PY + 'file/file_export.py')],
     'Exhaustive enumeration of small project structures, each exported by the real code to every document type, read by an '
     'independent ODF reader, and compared block by block with an independent model of the document',
     'Bounded: chapters of up to 2 (thorough 3) scenes, and sequences of chapters covering every ordered pair.',
     ['the content of the exported document'])

prop('C12',
     'Every exported file is a complete, well-formed OpenDocument package, and shows titles, names, author, tags, and all other one-line '
     'texts and metadata literally, whatever characters they and the file name consist of; the document language is that of the project.',
     ['inputs'], 'all texts of up to n special tokens in all one-line fields, all missing metadata, lists of locales and file names',
     'The tests use ordinary names; an office program that refuses a damaged document is not part of them.',
     [PY + 'odf/odf_file.py', PY + 'odt_w/odt_writer.py', PY + 'ods_w/ods_writer.py', PY + 'file/file_export.py',
      PY + 'odt_w/odt_w_xref.py'],
     [('filling the templates', PY + 'file/file_export.py'), ('building the package', PY + 'odf/odf_file.py')],
     'Exhaustive enumeration of token strings in all one-line fields, each exported by the real code to every document type, unpacked, '
     'parsed, and compared by an independent ODF reader',
     'Bounded text length and alphabet; no office program is run.',
     ['the exported file'])

prop('C13',
     'The cross reference document lists for every character, location, item, and tag exactly the scenes and elements that refer to it, '
     'each once, in the order of the novel, with correct titles, numbers, types, and link targets.',
     ['inputs'], 'all relations between the elements and scenes of small projects, all distributions of scenes over chapters, all orders',
     'The tests export one project with a few relations.',
     [PY + 'model/cross_references.py', PY + 'odt_w/odt_w_xref.py'],
     [('collecting the relations', PY + 'model/cross_references.py')],
     'Exhaustive enumeration of relations over small projects, computed and exported by the real code, compared with the relation itself',
     'Bounded: 3 scenes and 2 elements of each kind (thorough: 4 and 2, 3 and 3).',
     ['the exported document', 'the computed cross reference'])

prop('C14',
     'Part, chapter, and scene dividers typed in a document split the scenes exactly there when it is imported: no text is lost or '
     'repeated, new chapters and scenes appear in order with the titles and descriptions given and unique IDs, all existing IDs and '
     'data are kept, and the user is told if and only if something was created.',
     ['histories'], 'all sequences of up to n paragraphs over text and divider paragraphs, in every formatted document type',
     'The tests split one document with a regular structure.',
     [PY + 'model/splitter.py', PY + 'converter/yw7_converter.py', PY + 'model/id_generator.py'],
     [('line-wise splitting of scene contents', PY + 'model/splitter.py')],
     'Explicit-state exploration: a model of the divider rules steps through every sequence of paragraphs; each sequence is imported by '
     'the real code and must give the structure of the model',
     'Bounded number of paragraphs: 3 (thorough 4), all over two existing scenes.',
     ['the .yw7 file after the import', 'the warning shown'])

prop('C15',
     'Every conversion either succeeds, reports this, and writes exactly the file the source and type say (backing up the previous version '
     'byte by byte), or it refuses, reports why, and changes no file: missing or unsupported files, unknown export types, documents not '
     'meant to be written back, missing, locked, or damaged projects, existing projects in the way of new ones, declined overwriting. Any '
     'sequence of conversions with one converter gives what separate conversions give.',
     ['configurations', 'histories'], 'all combinations of source names and contents, project and target states, answers, and converters; all '
     'histories of up to n operations on two projects',
     'The tests run single successful conversions, each with a fresh converter.',
     [PY + 'converter/yw_cnv_ui.py', PY + 'converter/yw_cnv_ff.py', PY + 'converter/yw7_converter.py', PY + 'converter/import_target_factory.py',
      PY + 'converter/import_source_factory.py', PY + 'converter/new_project_factory.py', PY + 'converter/export_target_factory.py', YW],
     [('choosing source and target by file name', PY + 'converter/yw_cnv_ff.py'), ('overwrite question and report', PY + 'converter/yw_cnv_ui.py'),
      ('lock files', YW)],
     'Exhaustive enumeration of configurations against a decision table, and explicit-state exploration of conversion histories, each step '
     'compared with the same conversion in a pristine process',
     'Bounded histories (3, thorough 4); a finite list of names and states.',
     ['all files of the directory', 'the result and message of the conversion'])

prop('C16',
     'If saving, exporting, or importing fails at any point (full or vanished disk, forbidden operation), the previous version is back in '
     'place, nothing incomplete is left, and the failure is reported. If the process dies at any point, the previous version is there, at its '
     'place or as the backup, and an incomplete file is never taken for a complete one; all other files are untouched.',
     ['fault_sequences', 'crash_points'], 'every file operation of every writing conversion failing or being the last one; every limit of the file size',
     'The tests never fail a file operation.',
     [YW, PY + 'odf/odf_file.py', PY + 'file/file_export.py', PY + 'converter/yw_cnv_ui.py'],
     [('backup and restore', YW), ('backup, restore, and temporary directory', PY + 'odf/odf_file.py')],
     'Exhaustive fault injection: every file operation reported by the interpreter audit hooks and every file size limit of the kernel, as an '
     'error or as the death of the process, on the real code in child processes; repeated after recovery',
     'Single faults, pairs of crashes, and persistent failures; a crash does not lose operating system buffers.',
     ['all files of the directory after the fault', 'the report'])

prop('C17',
     'A damaged or unusual project or document (truncated, with missing, doubled, or empty parts, or wrong values) is either refused with a '
     'message, changing no file, or read such that it can be exported, and saved and reopened without a difference. A truncated file is always refused.',
     ['inputs'], 'every truncation, every removed, doubled, or emptied element, every wrong value of a list, every inverted byte',
     'The tests use intact files only.',
     [YW, PY + 'odt_r/odt_parser.py', PY + 'ods_r/ods_parser.py', PY + 'odt_r/odt_reader.py', PY + 'converter/yw_cnv_ui.py'],
     [('reading optional elements', YW), ('error handling of conversions', PY + 'converter/yw_cnv_ui.py')],
     'Exhaustive enumeration of single damages to every element, text, and byte, each opened, exported, saved, or imported by the real code',
     'Single damages (thorough: pairs of removed elements).',
     ['the report', 'all files of the directory'])

prop('C18',
     'A new project made from a work in progress or an outline has exactly the parts, chapters, and scenes of the document, in order, with '
     'its headings, scene titles from leading comments, complete formatted texts, comments, notes, and foreign languages or descriptions, the '
     'right scene status, and the title, author, description, and language of the document, however the document is stored.',
     ['histories'], 'all sequences of up to n paragraphs of any kind after a heading, for works in progress and outlines; all short documents in every form of storage of a list; all locales and metadata of a list',
     'The tests import one document of each kind.',
     [PY + 'odt_r/odt_r_import.py', PY + 'odt_r/odt_r_outline.py', PY + 'converter/new_project_factory.py', PY + 'odt_r/odt_parser.py', PY + 'odt_r/odt_reader.py'],
     [('state machine over headings, dividers, and paragraphs', PY + 'odt_r/odt_r_import.py'), ('outline levels', PY + 'odt_r/odt_r_outline.py')],
     'Explicit-state exploration: a model of the documented rules steps through every sequence of paragraphs; each sequence is imported by the '
     'real code and the reopened project must agree with the model',
     'Bounded number of paragraphs: 3 and 4 (thorough 4 and 6).',
     ['the new .yw7 file'])

prop('C19',
     'The word and letter counts of the scenes of an opened project are those of the visible text: markup and comments do not count, '
     'dashes separate words, hyphens do not; counts are up to date after any change of the text, and the scene list shows them and their totals.',
     ['inputs'], 'all texts of up to n tokens',
     'The tests compare the counts of two scenes.',
     [PY + 'model/scene.py', YW],
     [('counting', PY + 'model/scene.py')],
     'Exhaustive enumeration of token sequences, counted by the real code and by an independent state machine over characters',
     'Bounded length: 4 tokens (thorough 5) of 17.',
     ['the word and letter counts'])

prop('C20',
     'Custom fields that a project file class defines for the project, its chapters, scenes, characters, locations, items, and project notes are '
     'read, stored, changed, and cleared independently of each other and of everything else in the project. Purging custom fields removes exactly '
     'these from the file and reports whether there were any; removing language tags changes nothing but the language tags.',
     ['histories'], 'all states of two fields of two elements of each kind, all edits from each state, all combinations of kinds for purging, all texts of up to n tokens',
     'The tests do not define custom fields; which XML elements must be created or removed depends on what is there before.',
     [YW, PY + 'yw/yw7_purge.py'],
     [('custom keyword variables', YW), ('purging', PY + 'yw/yw7_purge.py')],
     'Explicit-state exploration of the custom field states: every edit from every state is replayed on the real reader and writer and compared '
     'with the model, in memory, in the file, and after reopening',
     'Two fields with two values each, two elements of a kind, histories of one or two edits.',
     ['the .yw7 file', 'the reopened project'])

prop('C21',
     'A document exported earlier can be imported at any time, after any changes of the project and in any order with other documents: it sets '
     'the fields it shows, of the elements that still exist, and for lists which elements there are and their order, to what they were when it '
     'was exported. Everything else in the project stays as it is, no reference to a missing element arises, and the project can be reopened and '
     'saved without a difference. If such an import is refused, no file changes.',
     ['histories'], 'all histories of edits, exports, and imports up to the bound, with one or two documents',
     'The tests import documents into the project they come from, only.',
     [PY + 'converter/yw_cnv_ui.py', YW, PY + 'odt_r/odt_r_manuscript.py', PY + 'ods_r/ods_r_scenelist.py', PY + 'ods_r/ods_r_charlist.py'],
     [('import into the existing project', PY + 'converter/yw_cnv_ui.py'), ('rebuilding chapters and element lists', YW)],
     'Explicit-state exploration (breadth-first, with state matching) of histories of a project and its documents; a relational model decides every import of the real code',
     'Up to 4 operations (thorough: 8 with one document, 5 with any two documents), six kinds of edits; plain texts.',
     ['the .yw7 file', 'the reopened project', 'the report'])

prop('C22',
     'What an opened project contains does not depend on how its XML file is stored: the encoding, the XML header, the order and layout of elements, '
     'comments, character references, line ends, and control characters. Saving such a file yields a normal one with the same information.',
     ['inputs'], 'all sets of at most n structural transformations times all text forms, encodings, headers, and line ends',
     'The tests read files from one yWriter version.',
     [YW],
     [('decoding and cleaning of the file', YW)],
     'Exhaustive enumeration of the combinations of storage forms of a project file, each read and saved by the real code and compared with the plain form',
     'Bounded number of structural transformations at a time: 2 (thorough: all).',
     ['the opened project', 'the .yw7 file'])

prop('C23',
     'The settings and options of a configuration come back exactly as they were saved, whatever their text; settings missing in the file, or unreadable, '
     'and all of them if the file is missing or damaged, keep their values; configurations and files do not influence each other.',
     ['histories'], 'all histories of two configurations and two files up to the bound; all texts of up to m tokens; all sets of damages',
     'There are no tests of the configuration.',
     [PY + 'config/configuration.py'],
     [('INI file', PY + 'config/configuration.py')],
     'Explicit-state exploration (breadth-first, with state matching) of a model of configurations and files; every transition is run on the real code',
     'Bounded histories (6, thorough 8) and token counts.',
     ['the INI file', 'the settings and options'])

prop('C24',
     'Every message marked in the source code reaches the user in its translation once a translator has entered one: whatever characters messages and '
     'translations contain, scanning, updating, and compiling keep them. Updates never lose a translation of a message that is still in the program, a '
     'dictionary remembers translations, the result says whether some are missing, and a failing update leaves the old or the new contents. A program finds its '
     'catalog however and from wherever it is started, and works without one.',
     ['histories', 'inputs', 'fault_sequences'], 'all messages and translations of up to m tokens; all histories over 2 (3) messages; every failing file operation and position',
     'The tests do not cover the translation tools.',
     ['src/pgettext.py', 'src/translations.py', 'src/msgfmt.py', PY + 'pywriter_globals.py'],
     [('message scanner', 'src/pgettext.py'), ('merging translations', 'src/translations.py'), ('catalog compiler', 'src/msgfmt.py')],
     'Explicit-state exploration to the fixpoint of a model of source, translation file, and dictionary, each update run on the real code; exhaustive '
     'message enumeration through the real toolchain into the standard gettext; every fault point of an update',
     'Bounded message length (2, thorough 3 tokens) and number of messages (2, thorough 3).',
     ['the .po, .pot, .json, and .mo files', 'the results'])

prop('C25',
     'The main window always shows which project is open (title, author, path, menu), errors until they are dismissed and then the status before, and '
     'results as they are; a project that cannot be read is closed with a message; settings survive a restart. Every user interface shows messages and questions unchanged, '
     'tells errors from results, and a refused question changes nothing. Opening a document hands exactly its path to the system. Setting the window icon uses exactly the picture asked for, and reports failure without doing anything else.',
     ['histories', 'inputs'], 'all histories of user actions, to the fixpoint of the states; all messages of up to m and all file names of up to d tokens; all conversions of a list with all answers; all combinations of places of icons',
     'There are no tests of the user interfaces.',
     [PY + 'ui/main_tk.py', PY + 'ui/ui_tk.py', PY + 'ui/ui_mb.py', PY + 'ui/ui_cmd.py', PY + 'ui/ui.py', PY + 'ui/set_icon_tk.py', PY + 'file/doc_open.py'],
     [('main window', PY + 'ui/main_tk.py'), ('message protocol', PY + 'ui/ui.py')],
     'Explicit-state exploration (breadth-first, with state matching, to the fixpoint) of a model of the main window; every transition is run on the real class with a recording tkinter',
     'Bounded message lengths; a list of projects.',
     ['widgets', 'dialogs', 'console output', 'files'])

prop('C26',
     'Exporting the XML data files writes well-formed files with exactly the characters, locations, and items of the project, in order and with all '
     'their data, whatever the texts contain and whatever files were there before, and leaves the project file alone.',
     ['inputs'], 'all subsets of the fields, all sets and orders of up to n elements, all texts of up to m tokens in all fields',
     'There are no tests of the data files.',
     [PY + 'yw/data_files.py', YW],
     [('splitting the XML tree', PY + 'yw/data_files.py')],
     'Exhaustive enumeration of projects, exported by the real converter and compared with the project by an independent XML reader and by reading a project made of the files',
     'Bounded lists (4) and texts (3, thorough 4 tokens).',
     ['the XML files', 'the project file'])

prop('C27',
     'An application that the inliner builds as a single script does exactly what it does when it uses the package: all sample applications, with any '
     'input, and all programs that follow the conventions, whatever modules they import in which order.',
     ['programs', 'inputs'], 'all sample applications with a list of inputs; all acyclic import graphs of n modules with all import orders; all sequences of m constructs',
     'There are no tests of the inliner; whether the modules of the package still fit into one script depends on all of them together.',
     ['src/inliner.py', PY + 'converter/yw7_converter.py', PY + 'pywriter_globals.py', 'src/sample/cnv_manuscript.py'],
     [('inlining', 'src/inliner.py')],
     'Exhaustive enumeration of programs and inputs; each program is run with the package and as the built script in isolated processes and its effects are compared',
     'Bounded graphs (3, thorough 4 modules) and programs (2, thorough 3 constructs).',
     ['files', 'messages', 'output'])

prop('C28',
     'Every link in an exported document (to chapters, parts, scenes, characters, locations, and items) leads to the sibling document of the same project, whatever the project '
     'and its directory are called, and there to exactly one section, which is the one of the thing the link shows.',
     ['inputs'], 'all structures of chapters and scenes, all names of project and directory of up to n tokens',
     'The tests compare link texts of one project with reference files; no link is followed.',
     [PY + 'file/file.py', PY + 'file/file_export.py', PY + 'odt_w/odt_w_xref.py', PY + 'odt_w/odt_w_scenedesc.py', PY + 'odt_w/odt_w_chapterdesc.py',
      PY + 'odt_w/odt_w_partdesc.py', PY + 'ods_w/ods_w_scenelist.py', PY + 'model/cross_references.py'],
     [('URL-coded names of project and directory', PY + 'file/file.py'), ('section names and links in the templates', PY + 'odt_w/odt_w_xref.py')],
     'Exhaustive enumeration of project structures and names; each project is exported by the real code to all document types, and every link is decoded and followed '
     'by an independent reader',
     'Bounded structures (2, thorough 3 scenes per chapter) and names (2, thorough 3 tokens of 28); no office program follows the links.',
     ['the links of the documents'])

prop('C29',
     'A file that an application exports with templates of its own consists of exactly the filled-in templates of all chapters, scenes, characters, locations, items, and project '
     'notes its filters accept: each once, in order, in the template of its kind, with its data, numbers, and totals; and whatever the data are, they appear literally.',
     ['inputs', 'fault_sequences'], 'all subsets of the templates of each group, all deviations of up to n templates across the groups, all filters of a project, all values',
     'The tests only see the built-in document types, which use fixed sets of templates and no filters.',
     [PY + 'file/file_export.py', PY + 'file/filter.py', PY + 'file/file.py'],
     [('filling in the templates', PY + 'file/file_export.py'), ('filter strategy', PY + 'file/filter.py')],
     'Exhaustive enumeration of template sets, filters, structures, and values; the written files are compared literally with an independent model of the export',
     'Bounded structures (2, thorough 3 scenes per chapter), deviations (2, thorough 3 templates), and texts (2, thorough 3 tokens).',
     ['the written file'])
prop('C30',
     'Exporting documents never changes the open project: afterwards it shows and saves what it did before, and documents made from it in any order are those of a newly opened project. '
     'Reading a project again shows exactly what its file has then, and saving it brings nothing back that was deleted or changed in the file meanwhile.',
     ['histories', 'inputs'], 'all histories of up to n operations on one open project, all pairs of versions of its file, all pairs of document types',
     'The tests read each project once and export it once.',
     [PY + 'yw/yw7_file.py', PY + 'file/file_export.py', PY + 'model/novel.py', PY + 'model/cross_references.py'],
     [('re-reading', PY + 'yw/yw7_file.py'), ('exporters share the model', PY + 'file/file_export.py')],
     'Explicit-state exploration: operation histories on the real objects, compared after each step with a model (the contents of the file and of the open project)',
     'Bounded histories (3, thorough 5 operations with two versions; pairs, thorough triples, of 28 versions and of 17 documents).',
     ['the open project', 'the saved file', 'the documents'])
prop('C31',
     'What a program makes of its files does not depend on the environment it runs in: the system locale (also none), the default encoding and line ends of text files, time zone, hash seed, working directory '
     'and form of the path, temporary directory, file mode mask, and interpreter options. It runs in each, and writes the same files. Documents and projects without language get that of the system, or none if it has none.',
     ['configurations'], 'all environments that deviate from the ordinary one in up to n dimensions',
     'The tests only run in the environment of the developer.',
     [PY + 'pywriter_globals.py', PY + 'model/novel.py', PY + 'file/file_export.py', PY + 'odf/odf_file.py', YW, PY + 'config/configuration.py'],
     [('locale', PY + 'model/novel.py'), ('localization', PY + 'pywriter_globals.py'), ('files and directories', PY + 'odf/odf_file.py')],
     'Exhaustive enumeration of environments; in each a new process runs all conversions, whose files and results are compared with those of the ordinary environment',
     'Bounded: up to 2 (thorough 4) deviations. Other encodings and line ends of text files are simulated at the interface of open().',
     ['the files', 'the results of conversions'])
prop('C32',
     'The size of a project makes no difference: with any number of chapters, scenes, characters, locations, items, notes, relations, tags, languages, notes in texts, and paragraphs, '
     'any IDs, and texts of any length, projects are read, saved, edited, exported, and imported like small ones: every part is there, once, in order, in each document, and nothing changes on the way back.',
     ['inputs'], 'all sizes up to n and around all powers of 2 and 10 up to a bound, in each of 37 respects',
     'The tests use one small project.',
     [YW, PY + 'file/file_export.py', PY + 'odt_r/odt_reader.py', PY + 'odt_r/odt_parser.py', PY + 'odt_r/odt_r_proof.py', PY + 'ods_r/ods_reader.py', PY + 'model/novel.py', PY + 'model/splitter.py',
      PY + 'model/cross_references.py'],
     [('reading and writing collections', YW), ('scene marks', PY + 'odt_r/odt_r_proof.py'), ('new IDs', PY + 'model/id_generator.py')],
     'Exhaustive enumeration of sizes; projects of each size are saved, edited, exported, and imported by the real code and compared with independent models of the files',
     'Bounded sizes (counts 128, thorough 2048; lengths 65537, thorough 1048577), one respect at a time.',
     ['the project file', 'the documents'])
prop('C33',
     'Every character of every script survives every way: at the beginning, within, and at the end of words and lines of any text, title, or name it is the same after saving, appears in each exported document, '
     'comes back from each imported document, and gets into new projects made from documents.',
     ['inputs'], 'all characters that XML can represent, on all ways',
     'The tests contain a few German characters.',
     [YW, PY + 'odt_w/odt_writer.py', PY + 'ods_w/ods_writer.py', PY + 'odt_r/odt_parser.py', PY + 'odt_r/odt_reader.py', PY + 'ods_r/ods_parser.py', PY + 'odt_r/odt_r_import.py'],
     [('texts of the project file', YW), ('texts of documents', PY + 'odt_w/odt_writer.py')],
     'Exhaustive enumeration of characters; each goes through the real code on each way, and independent readers compare the texts literally',
     'Quick: the basic plane and the ends of the others; one character per word. Thorough: all characters.',
     ['the project file', 'the documents'])
prop('C34',
     'A project stays consistent through any mix of operations: after any sequence of edits, imports of lists with added, deleted, and moved rows, splits, conversions, and purges, its file holds each part and '
     'each ID once, every scene in one chapter, no reference to something that does not exist, and shows exactly the elements, order, relations, and texts that the operations leave. '
     'Nothing new inherits anything from what was deleted from the file before, even if it gets the same ID.',
     ['histories'], 'all sequences of up to n operations over 68 operations of all kinds, each on the reopened file',
     'The tests do one operation on each file, and compare with files the program once made.',
     [YW, PY + 'model/splitter.py', PY + 'model/id_generator.py', PY + 'ods_r/ods_reader.py', PY + 'converter/yw7_converter.py', PY + 'yw/yw7_purge.py'],
     [('saving relations', YW), ('new IDs', PY + 'model/id_generator.py'), ('membership of lists', PY + 'ods_r/ods_reader.py')],
     'Explicit-state exploration of operation histories on the real code; after each step an independent reader of the file checks invariants and compares names, order, and relations with a model that knows no IDs',
     'Bounded: 2 (thorough 3) operations of 68, 3 (4) of 12 structural ones, (5 of 6), from one project with 3 chapters and 4 scenes.',
     ['the project file'])
