---------------------------- MODULE Files_Trace ----------------------------
(***************************************************************************)
(* Judges recorded uses of the text, file and list helpers.  Cells of      *)
(* tables and list entries are texts or tagged values.                     *)
(***************************************************************************)
EXTENDS Files, Judge
TInit(case) == [text |-> <<>>, folder |-> {}]
TStep(case, st, e) ==
  [st |-> CASE e.op = "write" -> [st EXCEPT !.text = e.list]
            [] e.op = "made" -> [st EXCEPT !.folder = SetOf(e.entries)]
            [] OTHER -> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "clean" -> [every_line_end_is_one_newline |-> e.r = Cleaned(e.t, 1)]
      [] e.op = "remove" -> [only_line_ends_removed |-> e.r = Without(e.t)]
      [] e.op = "snake" -> [words_joined |-> e.r = Snake(e.t, 1)]
      [] e.op = "write" -> [list_unchanged |-> e.after = e.list]
      [] e.op = "read" -> [same_list_again |-> e.r = st.text]
      [] e.op = "made" -> [done |-> TRUE]
      [] e.op = "files" -> [exactly_the_matching_files |-> Once(e.r, FilesOf(st.folder, e.exts, e.pre)), their_paths |-> e.paths]
      [] e.op = "folders" -> [exactly_the_folders |-> Once(e.r, FoldersOf(st.folder)), their_paths |-> e.paths]
      [] e.op = "mkdir" -> [exists |-> e.isdir, contents_kept |-> e.kept]
      [] e.op = "path" -> [joined |-> e.r = e.want]
      [] e.op = "table" -> [columns_by_name |-> DOMAIN e.r = {e.header[j] : j \in 1..Len(e.header)} /\
                              \A j \in 1..Len(e.header) : e.r[e.header[j]] = [i \in 1..Len(e.rows) |-> e.rows[i][j]] \o <<>>]
      [] e.op = "apart" -> [columns |-> e.r = Rows(e.t)]
      [] e.op = "together" -> [rows |-> e.r = Rows(e.t)]
      [] e.op = "drop" -> [every_other_entry_in_order |-> e.r = SelectSeq(e.t, LAMBDA x : x # e.x), list_unchanged |-> e.after = e.t]]
=============================================================================
