#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, note=note, state=state or []))

prop("P01", "A break request always stops the running program",
 "Whenever the user presses SELECT (or touches the on-screen ESC key) while any program is running, the program stops within a bounded amount of further execution, whatever statement is executing or waiting (WAIT, INPUT, drawing, loading, RUN/EXEC, sub-interpreters such as ACLS). Afterwards the DIRECT prompt is usable again: it accepts a line and executes exactly that line. No break request is lost and none kills the process.",
 ["schedules","programs","histories"], "all programs, all moments of the press relative to the program thread, any number of break/run rounds",
 "Unit tests run single-threaded and never raise a break; the losing interleavings need a press between two particular instructions of the program thread.",
 ["source/interpreter/runner.c","source/system.c","source/subsystem/input.c","source/subsystem/panel.c","source/subsystem/console.c"],
 [("check_interrupt / break_request polling","source/interpreter/runner.c run, source/system.c launch_system"),("waiting commands poll the flags","source/system.c cmd_wait, cmd_vsync; source/subsystem/console.c shared_input")],
 ["console text","variables after the stop"], "random statement-loop programs, SELECT/ESC presses at seeded frames, five schedule families; the prompt must answer after a bounded number of program blocks")
prop("P02", "Closing the window always ends the process cleanly",
 "After the user closes the window the program thread stops within a bounded amount of further execution, the process terminates normally (no abort, crash or hang), and no thread is left running. This holds at every moment: during start-up, at the prompt, while waiting for input, while drawing or during file commands.",
 ["schedules","programs","crash_points"], "all programs and all moments of the close request relative to both threads",
 "No test closes the window; the shutdown handshake between two threads has no test at all.",
 ["source/main.c","source/system.c","source/interpreter/runner.c","source/subsystem/console.c"],
 [("shutdown_request polled by the runner and by waiting commands","source/interpreter/runner.c, source/system.c"),("join before freeing","source/main.c")],
 ["process exit","thread state at exit"], "window close in a seeded frame of a random program under all schedule families; join must complete within a block bound")
prop("P14", "Acknowledged saves survive restart; a killed save loses nothing",
 "Data saved with a SAVE that set RESULT to 1 is read back exactly by LOAD, in the same run and after a restart, until it is overwritten by a later successful SAVE to the same name. If the process is killed at any point during a SAVE, the named file afterwards holds either its complete previous contents or the complete new contents, and every other saved file is unchanged.",
 ["crash_points","histories","schedules"], "all histories of saves, loads and appends over all resource kinds; a kill at every disk operation of a save",
 "Tests never save and reload through files in a history, and cannot kill the process in the middle of a write.",
 ["source/subsystem/resources.c","source/interpreter/program.c"],
 [("write to a temporary file, then rename","source/subsystem/resources.c write_resource"),("type and size checks on load","source/subsystem/resources.c check_load_file")],
 ["files on the simulated disk","RESULT","data written by a second boot"], "random SAVE/LOAD/APPEND histories on a simulated disk, process kill at a seeded disk operation, second boot reads everything back; model of disk and of each resource")
prop("P15", "A failed save reports failure and keeps the old file",
 "When writing fails at any point (open, short or failing write, full disk, failing close or rename) SAVE sets RESULT to 0 or raises an error, never RESULT 1. The previously saved file under that name still holds its complete previous contents, and the program and resources in memory are unchanged.",
 ["fault_sequences","histories"], "every disk operation of every save may fail, in any combination, anywhere in a history",
 "The tests have no way to make a write fail.",
 ["source/subsystem/resources.c"],
 [("every write and the close are checked before RESULT is set","source/subsystem/resources.c write_resource, cmd_save")],
 ["RESULT","files on the simulated disk"], "as P14 with injected write errors, short writes, full disk, close/rename failures")
prop("P16", "LOAD of a resource is all or nothing",
 "LOAD of a resource file (graphics, characters, screens, colours, MEM) either sets RESULT to 1 and the resource equals the file's contents exactly, or sets RESULT to 0 (or raises an error) and the resource is exactly as before. Missing, truncated, wrong-type, damaged or unreadable files, and read errors in the middle of the file, never leave a partly changed resource and never crash.",
 ["inputs","fault_sequences","histories"], "all file contents and all read failures",
 "The resource test loads only well-formed files from a fixed directory.",
 ["source/subsystem/resources.c","source/extension/compress.c"],
 [("whole file read and validated before the destination is written","source/subsystem/resources.c check_load_file, find_resource_data")],
 ["RESULT","resource contents saved afterwards"], "damaged files of 13 kinds in three container formats, read/seek/open faults; resource read back by SAVE and compared with a model")
prop("P17", "LOAD, APPEND, EXEC and autoload of programs are all or nothing",
 "LOAD, APPEND, EXEC and start-up autoload of a program file either take the complete program (LOAD replaces, APPEND appends, EXEC and autoload also run it, with the packaged resources) or report failure and leave the program in memory, PRGNAME$ and all resources unchanged. A damaged, truncated, oversized, missing or unreadable file never results in running or keeping a part of it, and never crashes; only APPEND may cut what no longer fits into the program memory.",
 ["inputs","fault_sequences","histories"], "all program file contents and all read failures",
 "Tests load only well-formed programs and cannot inject read failures.",
 ["source/interpreter/program.c","source/subsystem/resources.c","source/system.c"],
 [("staged load, then commit","source/subsystem/resources.c load_program"),("bounded reads","source/interpreter/program.c")],
 ["program text saved afterwards","RESULT","PRGNAME$","resources"], "as P16 for programs, plus EXEC packages and autoload at boot")
prop("P18", "Storage commands touch only the named file and list exactly",
 "SAVE creates or replaces only the named file inside the programs directory; LOAD, APPEND, EXEC and FILES change no file; names with illegal characters, wrong length or unknown resource are rejected without any file access outside that directory. FILES lists exactly the loadable files present, each once, and every command releases the files and directories it opened, also when it fails.",
 ["inputs","fault_sequences","histories"], "all names, all directory contents, all fault sequences",
 "Tests never look at the directory after a command nor at open handles, and never list a directory.",
 ["source/subsystem/resources.c","source/system.c"],
 [("name validation before any path is built","source/subsystem/resources.c verify_resource_name, get_verify_resource"),("fclose/closedir on every path","source/subsystem/resources.c, source/system.c cmd_files")],
 ["set and contents of files on the simulated disk","console text","open handles"], "as P14 with junk directory entries, bad names, opendir/readdir faults, open-handle accounting")
exec(open(os.path.join(V,"tools","props_more.py")).read()) if os.path.exists(os.path.join(V,"tools","props_more.py")) else None

NA = []
def na(id,title,statement,over,qtext,why,files,mech,reason):
    NA.append(dict(id=id,reason=reason)); P.append(dict(id=id,title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,observe=["results of a single call"],note=None,state=[]))
exec(open(os.path.join(V,"tools","props_na.py")).read()) if os.path.exists(os.path.join(V,"tools","props_na.py")) else None

P.sort(key=lambda p:p["id"])
with open(os.path.join(V,"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80, p["title"]
        f.write(json.dumps({"id":p["id"],"title":p["title"],"statement":p["statement"],"quantifier":{"over":p["over"],"text":p["qtext"]},"why_tests_cant":p["why"],
          "anchors":{"files":p["files"],"state":p["state"],"mechanism":[{"name":a,"where":b} for a,b in p["mech"]],"observe_at":p["observe"],"hook_needed":None}})+"\n")
have={l.split()[0] for l in open(os.path.join(V,"checks.tsv")) if l.strip()}
nas={n["id"] for n in NA}
checks=[]
for p in P:
    if p["id"] in nas: continue
    assert p["id"] in have, p["id"]
    checks.append({"property":p["id"],"quick_cmd":"bash check.sh %s quick"%p["id"],"thorough_cmd":"bash check.sh %s thorough"%p["id"],"evidence_file":"evidence/%s.json"%p["id"],
      "technique":"deterministic simulation with fault injection: the real main loop, launcher and interpreter run as coroutines under a seeded scheduler with simulated clock, window, input and disk","level":"exploration","level_note":p["note"]})
M={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"No hook in /repo: the seams are taken at compile time (-include sim/seam.h) and at link time (ld --wrap of threads, mutexes, clock, sleep, file and directory calls; a stand-in for libcsfml).","source_commits":[]},
 "checks":checks,"not_applicable":NA}
json.dump(M,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
print(len(P),"properties",len(checks),"checks")
