prop("P04", "WAIT n and VSYNC n last exactly n frames",
 "WAIT n and VSYNC n return when n further frames have been displayed: never before, and not later than the turns in which the program itself was held up. n of zero or less returns at once, fractions are dropped, waits of any length behave the same at every age of the frame counter, and the wait depends neither on input nor on the wall clock.",
 ["schedules","programs","histories"], "all n, all starting frame counts (including counter carries), all interleavings of the frame loop with the polling loop, clock jumps during the wait",
 "No test runs the frame loop together with a program, so no test executes a wait at all.",
 ["source/system.c","source/timers.c","source/main.c"],
 [("polling loop on the frame counter","source/system.c cmd_wait, cmd_vsync"),("frame counter advanced once per frame by the window thread","source/main.c, source/timers.c inc_time")],
 ["frames between the statement before and after the wait"], "program marks before/after each wait are observed at every scheduler switch and compared with the simulated frame count; counter forwarded to just before carries")
prop("P05", "MAINCNTL and MAINCNTH always give the number of displayed frames",
 "At every moment MAINCNTL is the number of frames displayed since start modulo 2^20 and MAINCNTH is that number divided by 2^20 (as 16 bit value), for every run length. Both are whole numbers, never go backwards except where the counter carries, and do not depend on input, wall clock or schedule.",
 ["schedules","histories"], "all run lengths including the carries at 2^20, 2^31, 2^32 and 2^36 frames, all moments of the read relative to the frame loop",
 "Tests never run frames; a carry takes 4.8 hours of real time to reach.",
 ["source/subsystem/sysvars.c","source/timers.c","source/main.c"],
 [("frame counter","source/timers.c inc_time, get_time"),("split into low and high part","source/subsystem/sysvars.c sys_maincntl, sys_maincnth")],
 ["values read by the program"], "frame counter forwarded in the running system, readings compared with the window of simulated frame numbers in which the statement executed")
prop("P06", "TIME$ and DATE$ give the local wall clock at the moment they are read",
 "TIME$ is HH:MM:SS and DATE$ is YYYY/MM/DD of the system's local time at a moment between the start and the end of the expression's evaluation, in every time zone, at leap days, year ends and daylight-saving changes, and when the clock jumps forwards or backwards. Reading them any number of times has no effect on anything else and consumes no resources.",
 ["schedules","histories","configurations"], "all clock histories (steady, jumping, backwards), time zones, and reading frequencies",
 "Tests cannot control the clock; nothing tests TIME$ or DATE$.",
 ["source/subsystem/sysvars.c"],
 [("formatting of the local time","source/subsystem/sysvars.c sys_time, sys_date")],
 ["strings read by the program"], "simulated clock and time zone; every string compared with an independent civil-calendar computation for the clock values handed out during the statement")
prop("P07", "Every typed key reaches the program exactly once and in order",
 "Characters typed on the host keyboard (in keyboard mode; kana in any mode) or supplied by the auto-input file are returned by INKEY$ exactly once, unchanged and in the order they were entered, however the program polls. Typed keys are lost only while 256 keys are waiting; the auto-input file never loses a key because it waits for room.",
 ["schedules","histories","inputs"], "all typing histories and bursts, all polling patterns, all interleavings of the window thread filling the queue and the program emptying it",
 "The tests fill the queue and read it from one thread; wrap-around, fullness and concurrent access are never combined.",
 ["source/subsystem/input.c","source/main.c","source/interpreter/strs.c"],
 [("ring buffer under a mutex","source/subsystem/input.c set_inkey, get_inkey"),("text events and auto-input file","source/main.c"),("INKEY$","source/subsystem/input.c func_inkey"),("character conversion","source/interpreter/strs.c to_wide, to_char")],
 ["characters returned by INKEY$"], "received sequence compared with the sent one; with overflow, a search over accepted/dropped keys in which a drop is only legal while 256 keys can have been waiting")
prop("P08", "BUTTON and BTRIG report what is held, edges once, repeats as set by BREPEAT",
 "BUTTON(0) has exactly the bits of the buttons held in the latest frame, BUTTON(2)/BUTTON(3) those that were pressed/released in that frame, and BTRIG and BUTTON(1) those in their first frame of a hold plus, if BREPEAT set start and interval, those at the repeat times counted in frames of that hold. Buttons are independent of each other; buttons that do not exist in the current key mode, typed characters and touches never show up.",
 ["schedules","histories"], "all press/release histories, BREPEAT settings, key-mode changes and moments of reading",
 "Tests set the button word directly and never run the frame loop that samples the keyboard.",
 ["source/subsystem/input.c","source/main.c"],
 [("per-frame sampling","source/main.c, source/subsystem/input.c set_input"),("repeat rule","source/common.h check_repeat, source/subsystem/input.c check_pressed"),("BUTTON, BTRIG, BREPEAT","source/subsystem/input.c func_button, func_btrig, cmd_brepeat")],
 ["values of BUTTON()/BTRIG()"], "each bit of each reading compared with a per-frame model of the simulated keyboard over the frames in which the statement ran")
prop("P09", "TCHST, TCHX, TCHY and TCHTIME follow the touch panel frame by frame",
 "TCHST is true exactly while the panel is touched, TCHTIME is the number of frames the current touch has lasted (0 when released), and TCHX/TCHY give the last touched place in panel coordinates and keep it after release. A pointer outside the touch screen is not a touch, also when it leaves the screen with the button held.",
 ["schedules","histories"], "all pointer movements and press/release histories, all moments of reading",
 "No test feeds pointer positions; the mapping and the release path live in main.c.",
 ["source/main.c","source/subsystem/input.c","source/subsystem/sysvars.c"],
 [("pointer to panel coordinates","source/main.c"),("touch state under a mutex","source/subsystem/input.c set_touch"),("system variables","source/subsystem/sysvars.c sys_tchst, sys_tchx, sys_tchy, sys_tchtime")],
 ["values of the four system variables"], "readings compared with a per-frame model of the simulated pointer")
prop("P10", "Touched on-screen keys type exactly what is printed on them",
 "A touched key of the on-screen keyboard acts once when touched, again after 30 frames and then every 5 while held, and types the character printed on it for the current layer (KYA/KYM/KYK, one-shot shift, caps lock; kana shift keys type two), function keys type their KEY text; sliding to another key does nothing until released, PNLTYPE OFF/PNL type nothing. KEYBOARD, FUNCNO, ICONCHK and ICONPAGE report the same key events, ICONPAGE staying within 0..ICONPMAX.",
 ["schedules","histories"], "all touch histories (taps, holds, slides, pointer leaving the screen), panel types, KEY texts, icon settings and moments of reading",
 "Only the key table is tested by eye; no test touches a key over several frames.",
 ["source/subsystem/panel.c","source/main.c","source/subsystem/sysvars.c"],
 [("touch to key, hold, release","source/subsystem/panel.c press_key"),("legends","source/subsystem/panel.c keyboard_chr"),("key events","source/subsystem/panel.c get_pressed_key, func_iconchk; source/subsystem/sysvars.c sys_keyboard, sys_funcno")],
 ["characters returned by INKEY$","KEYBOARD, FUNCNO, ICONCHK, ICONPAGE readings"], "taps are aimed at the printed key rectangles (own layout and legend tables); typed sequence must be equal, readings must match the frames they were made in")
prop("P11", "INPUT and LINPUT deliver exactly the line edited on the screen",
 "While INPUT or LINPUT waits, the line on the screen is what the editing done so far gives (typed characters inserted or replacing, one character per backspace, delete, cursor movement, up to 32 characters), each key or button press acting once, or repeatedly while held as set. A or Enter ends exactly one prompt, and the variables receive exactly the characters or number shown, all 32 included; an unusable answer is asked again and changes nothing else. Typed characters never get lost or entered twice, however slowly the editor runs.",
 ["schedules","histories","inputs"], "all editing histories with keyboard, buttons and on-screen keyboard, all prompt forms and screen positions, all interleavings of the frame loop with the editor loop",
 "The console test feeds a fixed queue in test mode; no test presses a button or a panel key while the editor loop runs in another thread.",
 ["source/subsystem/console.c","source/subsystem/input.c","source/subsystem/panel.c"],
 [("editor loop","source/subsystem/console.c shared_input"),("assignment, splitting at commas, re-prompt","source/subsystem/console.c cmd_input, cmd_linput"),("edge per button sample","source/subsystem/input.c get_edit_buttons, set_input")],
 ["console row and cursor after every edit","values of the variables"], "random editing histories; after every edit the shown row is compared with a model of the line, after each prompt the variables are compared with it")
prop("P12", "Sprites move, scale, turn and animate exactly as commanded, frame by frame",
 "SPOFS, SPSCALE and SPANGLE with a time of n frames carry the sprite from where it is to exactly the given value in n displayed frames of equal steps, SPANIM shows each character for the given number of frames, for the given number of rounds, then the last one; commands without a time act at once. SPCHK reports each kind of change exactly while it lasts and SPREAD the current state. Sprites, the two screens and the four kinds of change never influence each other, and the moment at which a command hits the frame loop does not matter.",
 ["schedules","histories","programs"], "all histories of sprite commands on all sprites, all durations, all interleavings of the program with the frame loop that moves the sprites",
 "The sprite test steps one sprite at a time by hand; durations, several sprites and commands issued while the frame loop runs are not tested.",
 ["source/subsystem/sprites.c","source/main.c"],
 [("per-frame stepping","source/subsystem/sprites.c step_sprites, called by source/main.c"),("commands","source/subsystem/sprites.c cmd_spofs, cmd_spscale, cmd_spangle, cmd_spanim, cmd_spchr, cmd_spset, cmd_spclr"),("queries","source/subsystem/sprites.c func_spchk, cmd_spread")],
 ["sprite state as drawn in every frame","values of SPCHK and SPREAD"], "after every frame each component of every sprite is compared with the set of states the commands so far allow (one per frame boundary the command spanned)")
prop("P13", "BG layers scroll exactly as commanded, frame by frame",
 "BGOFS with a time of n frames moves the layer's offset in n displayed frames of equal steps from where it is to exactly the given offset; without a time it takes effect at once and ends any scrolling. BGCHK is true exactly while the layer scrolls. The four layers never influence each other, and the moment at which a command hits the frame loop does not matter.",
 ["schedules","histories","programs"], "all histories of scroll commands on all layers, all durations, all interleavings of the program with the frame loop",
 "No test steps the background while a program runs.",
 ["source/subsystem/background.c","source/main.c"],
 [("per-frame stepping","source/subsystem/background.c step_background"),("command and query","source/subsystem/background.c cmd_bgofs, func_bgchk")],
 ["layer offsets as drawn in every frame","values of BGCHK"], "as P12")
prop("P03", "Every program run starts afresh, however the runs before it ended",
 "A program started by RUN, EXEC, EXEC from inside another program or LOAD and RUN behaves exactly as it does as the first program of a session (apart from variables and settings it inherits): READ starts at its first DATA, no FOR or GOSUB of an earlier run is open, RETURN and NEXT without partner are errors. This holds whatever ended the runs and direct lines before it: END, STOP, a break at any point, INPUT left by a break, any error, in the middle of expressions, loops, subroutines and READs, or a failed EXEC.",
 ["histories","programs","schedules"], "all histories of direct lines and programs with all ways to end, all ways to start the next program, all moments of a break",
 "Tests run one program in a freshly created machine; none runs a second one after an error, break or EXEC.",
 ["source/system.c","source/interpreter/runner.c","source/interpreter/flow.c","source/interpreter/data.c"],
 [("start of a run","source/interpreter/runner.c run, cmd_exec, cmd_run"),("launcher between runs","source/system.c launch_system"),("call stack","source/interpreter/flow.c cmd_return, cmd_next, cmd_for"),("DATA position","source/interpreter/data.c cmd_read, cmd_restore")],
 ["console output and final message of the program"], "a random history of lines and programs, ended in 34 ways, precedes the probed program; its screen must equal the one it leaves in a fresh session")
prop("P19", "A program computes what its text says, whenever the frame loop interrupts it",
 "Running any program, with any interleaving of the program thread with the window loop and any input, leaves every variable, array element and the whole text screen as the language defines: fixed-point arithmetic, strings, comparison, arrays, SWAP, DATA/READ/RESTORE, IF, FOR with any step, GOTO, GOSUB, ON, computed labels, SORT, PRINT, scrolling. A statement that cannot be carried out ends the program with that statement's error, everything before it having taken effect and nothing after it. No program ever hangs or crashes the machine.",
 ["programs","schedules"], "all programs of the language core and all interleavings with the frame loop",
 "The unit tests run short fixed programs without the window thread; combinations of nested control flow, errors in the middle and long-lived string sharing are not sampled.",
 ["source/interpreter/runner.c","source/interpreter/tokens.c","source/interpreter/flow.c","source/interpreter/data.c","source/interpreter/arrays.c","source/interpreter/strs.c","source/interpreter/vars.c","source/interpreter/operators.c","source/interpreter/strfuncs.c","source/subsystem/console.c"],
 [("tokenizer: infix to postfix","source/interpreter/tokens.c"),("execution","source/interpreter/runner.c run"),("control flow","source/interpreter/flow.c"),("operators and functions","source/interpreter/operators.c, source/interpreter/strfuncs.c"),("console","source/subsystem/console.c")],
 ["all variables and arrays after the run","text screen including the final message"], "random structured programs are executed by an independent reference interpreter and by the whole simulated machine; state, screen and error must agree")
prop("P20", "A stopped program leaves exact variables and loses no string memory",
 "Whenever a program stops - at its end, by an error or by a break at any moment - every variable and array element holds exactly the value the statements executed so far gave it; no statement is half done. No string memory is lost: however programs ended, all memory that no variable refers to can be used again, in the same session, without CLEAR. Breaking, running again and clearing can be repeated without limit.",
 ["programs","schedules","histories"], "all programs, all moments of a break, all numbers of runs in one session, a small string memory",
 "Tests build a fresh machine for each short program, never break one and never run out of the 4096 strings; lost references and half-done statements need an interruption at a particular instruction or many runs.",
 ["source/interpreter/strs.c","source/interpreter/stack.c","source/interpreter/operators.c","source/interpreter/strfuncs.c","source/interpreter/vars.c","source/interpreter/runner.c","source/system.c"],
 [("reference counts of strings","source/interpreter/strs.c str_assign, get_new_str"),("release of what an expression used","source/interpreter/stack.c stack_clear"),("CLEAR","source/interpreter/vars.c")],
 ["variables and arrays after the stop","number of strings that can still be created"], "several runs in one session, each broken at a seeded frame or ended by itself, with 60 to 90 strings of memory: variables against the reference interpreter at the step reached, then a direct line fills the memory, which must take at least what is not referenced")
prop("P21", "Running out of memory is an ordinary error that can be recovered from",
 "A statement that needs a string, array or variable when none is left ends the program with an error; it never crashes, hangs or continues with a wrong value, and variables keep the values they had. The error is raised only when the memory really is in use. Afterwards the DIRECT prompt works, CLEAR makes all memory available again, and the program can be run again.",
 ["programs","schedules","histories","fault_sequences"], "every allocation of every program as the first that fails, all further histories of breaks, CLEAR and runs",
 "Tests never exhaust the shipped limits of 4096 strings, 2048 variables and 262144 elements; no test looks at the machine after such an error.",
 ["source/interpreter/strs.c","source/interpreter/arrays.c","source/interpreter/vars.c","source/interpreter/strfuncs.c","source/interpreter/operators.c","source/interpreter/data.c","source/system.c"],
 [("allocation failure checks","source/interpreter/strs.c get_new_str and its callers"),("array memory","source/interpreter/arrays.c get_init_new_arr"),("variable table","source/interpreter/vars.c")],
 ["error shown on the screen","variables and arrays","prompt"], "as P20 with a memory of 2 to 24 strings, 16 to 64 variables or a few array elements")

prop("P22", "Any program text is run or refused; break and the prompt always work",
 "Whatever text is run as a program or typed at the prompt - any statements and values, nested, mutilated, overlong, unfinished, arbitrary characters, a last line without line end - is carried out or ends with an error message; it never crashes or aborts the process, never accesses memory outside the machine's own data and never leaves the machine stuck. After a break the DIRECT prompt is there, and executes the next line correctly. (Excepted: raw memory commands with valid addresses.)",
 ["programs","inputs","schedules"], "all program texts and all values of all arguments of all commands and functions, all moments of the break",
 "Tests run well-formed programs with ordinary values; crashes need a particular malformed line or value, often together with the state left by earlier statements.",
 ["source/interpreter/tokens.c","source/interpreter/runner.c","source/interpreter/flow.c","source/interpreter/operators.c","source/interpreter/strfuncs.c","source/interpreter/mathptc.c","source/subsystem/graphics.c","source/subsystem/background.c","source/subsystem/sprites.c","source/subsystem/resources.c","source/subsystem/console.c","source/extension/sbc_memory.c","source/system.c"],
 [("types and numbers of arguments are checked when a line is compiled","source/interpreter/tokens.c tok_test"),("bounds of the compiler's buffers","source/interpreter/tokens.c tok_none, tok_eval"),("range checks of every command","source/subsystem, STACK_INT_RANGE"),("address checks","source/extension/sbc_memory.c")],
 ["end of the process","address sanitizer reports","prompt after a break"], "random programs from the manual's forms with boundary values, mutated programs and junk, run in the whole simulated machine built with the address sanitizer, broken at a seeded frame; the prompt must then execute a numbered line")
prop("P23", "No input, file, disk fault or moment of interruption corrupts memory",
 "Whatever the user does with keys, touch panel, prompts, breaks and the window, whatever files (also damaged ones) are on the disk, whichever disk operations fail, and however the frame loop and the program interleave, the process never dies by a fault or failed assertion and never reads or writes memory outside its objects or after it was released. This holds in every part: input, panel, console, sprites, backgrounds, graphics, drawing, storage, start-up and shutdown.",
 ["schedules","inputs","histories","fault_sequences","programs"], "all histories of the other properties with all interleavings and faults",
 "Tests call the parts one by one in one thread with ordinary data, without any memory checker.",
 ["source/main.c","source/system.c","source/subsystem/panel.c","source/subsystem/input.c","source/subsystem/console.c","source/subsystem/sprites.c","source/subsystem/background.c","source/subsystem/resources.c","source/subsystem/graphics.c","source/graphics/pc/display_pc.c","source/graphics/pc/tile.c","source/extension/compress.c","source/interpreter/strs.c","source/interpreter/arrays.c"],
 [("bounds of key tables, queues, tile maps","source/subsystem/panel.c, source/subsystem/input.c, source/subsystem/console.c"),("sizes checked when a file is read","source/subsystem/resources.c"),("order of release at shutdown","source/main.c, source/system.c")],
 ["end of the process","address sanitizer reports"], "the histories of P01 to P22 (own seeds, drawing partly on) run with the repository's code built with the address sanitizer; any report, assertion or signal is a violation")

prop("P25", "Drawing, BG, character and colour commands change exactly what they name",
 "Every graphics, BG, character and colour statement changes exactly the pixels, tiles, characters, colours and settings it names, on the pages it names, clipped to them, and nothing else; what GSPOIT, BGREAD, CHRREAD and COLREAD give is what was set. A refused statement changes nothing at all. A break, a failed file read or a later run never leaves half a setting or changes another page, layer or bank.",
 ["programs","schedules","crash_points","fault_sequences"], "all sequences of statements with all coordinates and values, all moments of a break, all read faults of resource files",
 "Tests draw a few shapes inside the page; clipping, aliasing of pages, layers and banks, refused statements and interrupted drawing depend on combinations over a history.",
 ["source/subsystem/graphics.c","source/subsystem/background.c","source/subsystem/resources.c","source/graphics/pc/tile.c"],
 [("pixel access and clipping","source/subsystem/graphics.c"),("tiles of both layers and screens","source/subsystem/background.c bg_page"),("character and colour banks","source/subsystem/resources.c get_chr_index, get_col_resource")],
 ["pages, layers, banks and settings after every program","values read back by the program"], "random sequences of statements over several programs in one session, broken at seeded frames, with read faults on the resource files; all graphic pages, tiles, characters and colours are compared with a model")
prop("P24", "The window shows the state of the machine, pixel for pixel",
 "Whenever the machine rests, every pixel of both screens is what text, text colours, characters, palettes, tiles, scroll offsets, sprites, graphic pages, panel, keyboard, icons, cursor, priorities and VISIBLE say. No change made by a program is missing from the picture a frame later, whenever during drawing it was made. Which keys the keyboard shows is what they type.",
 ["programs","schedules","crash_points","inputs"], "all sequences of statements that change the picture, all interleavings of the program thread with the drawing thread, all buttons and touches",
 "Tests never look at a picture; a stale texture or a wrong layer depends on when a statement runs relative to the drawing of a frame and on the history of panel, pages and resources.",
 ["source/graphics/pc/display_pc.c","source/graphics/pc/tile.c","source/subsystem/panel.c","source/subsystem/resources.c","source/subsystem/background.c","source/subsystem/sprites.c"],
 [("drawing order, layers and regeneration of textures","source/graphics/pc/display_pc.c display_draw_all"),("regeneration flags","source/subsystem/resources.c"),("panel types, backgrounds, keys","source/subsystem/panel.c")],
 ["the picture of a frame while the program waits (VSYNC) or a prompt is idle"], "programs of drawing statements with rests run under seeded schedules with touches, buttons and breaks; the picture of a software rasteriser behind the window library is compared with a reference that looks every pixel up from front to back")
prop("P26", "Collision results are true of one moment",
 "SPHIT and SPHITSP give 1 exactly when the areas of the sprites (SPCOL, scaled where asked for, in a common group), along their way to the next frame, touch, with all sprites as they are between two frames - never some before and some after a step. SPHIT names the first such sprite from the start number on. A sprite at rest is taken where it is.",
 ["schedules","programs","inputs"], "all interleavings of a query with the step of a frame, all movements, areas, groups and vectors",
 "Tests call SPHIT with the frame loop standing still; a query that overlaps the step of a frame needs a particular interleaving, a stale movement needs a history.",
 ["source/subsystem/sprites.c"],
 [("overlap of swept areas","source/subsystem/sprites.c is_hit"),("exclusion of the frame step","source/subsystem/sprites.c lock_sprites, step_sprites")],
 ["results stored by the program, sprites at the end of every frame"], "programs place sprites at random or in formation (so that every moment gives the same answer but a half-done step does not) and query while the frame loop steps under seeded schedules; every result must be the exact swept-rectangle answer for the state between two steps within the query")

prop("P27", "Sprite, panel, icon and visibility settings are as the program set them",
 "Whenever the prompt is back after a program, sprites (character, palette, flips, priority, size, home, position, scale, angle, SPCOL, SPCOLVEC, SPSETV), panel text and type, function keys, icons, VISIBLE and BREPEAT are exactly as the statements carried out so far set them. The statement that was being carried out when SELECT stopped the program took effect completely or not at all, and a refused statement changed nothing. SPREAD, SPGETV, CHKCHR and the icon variables give the program what it has set.",
 ["schedules","programs","inputs"], "all sequences of these statements, valid and invalid, stopped at any moment, under all interleavings with the frame loop",
 "Tests run single statements with nothing else running; lost or half-done settings need an interleaving with the frame loop or a break between statements, and confusion of screens, sprites or icons needs a history.",
 ["source/subsystem/sprites.c","source/subsystem/panel.c","source/system.c"],
 [("sprite settings","source/subsystem/sprites.c cmd_spset .. cmd_spchr"),("panel and icons","source/subsystem/panel.c cmd_pnlstr, cmd_key, cmd_iconset"),("visibility","source/system.c cmd_visible")],
 ["all settings at the prompt after every program, panel type at its last statement"], "programs of random statements, executed in up to three rounds and stopped by SELECT at seeded frames, are compared field by field with a reference that carries out the same statements")
prop("P28", "Memory access touches exactly the bytes that are addressed",
 "With MEMSAFE on, PEEK, PEEKH and PEEKB read and POKE, POKEH, POKEB, MEMFILL and MEMCOPY write exactly the bytes at the address ADDR gives for a resource or variable and offset, and no other byte of any graphics page, character, palette or variable changes. Null addresses, addresses outside the memory, offsets outside the resource, unknown resources and overlapping copies are refused and change nothing.",
 ["schedules","programs","inputs"], "all sequences of accesses to all resources, valid and invalid, stopped at any moment, under all interleavings with the frame loop",
 "Tests access a few addresses; that no other byte changes and that every bad address is refused is a statement about all of them, and about moments a program is stopped at.",
 ["source/extension/sbc_memory.c"],
 [("access","source/extension/sbc_memory.c SBC_POKE, SBC_PEEK, cmd_memcopy, cmd_memfill"),("addresses","source/extension/sbc_memory.c func_addr")],
 ["every byte of the resources, the variable and the values read, at the prompt after every program"], "resources are filled with distinct bytes; programs of random accesses run in rounds and are stopped by SELECT at seeded frames; all resources are compared byte by byte with a reference memory")
prop("P29", "Loops, subroutines and jumps nest in any order",
 "A program carries out exactly the statements, in exactly the order, that FOR, NEXT, GOSUB, RETURN, GOTO, ON and IF define for a stack of open loops and subroutines: loops left by a jump, by NEXT of an outer variable or by RETURN, loops skipped at once, computed labels, end values and steps that change while the loop runs, up to the size of the stack. It ends with the error of the first statement that cannot be carried out, or OK. A program stopped by SELECT has carried out a prefix of that sequence, and the next RUN starts over with an empty stack.",
 ["programs","schedules","crash_points"], "all arrangements of loops, subroutines and jumps, stopped at any moment, under all interleavings with the frame loop",
 "Tests run a few well formed nests once; what a loop or subroutine left open does to the ones that follow depends on the whole history of the stack, and on the moment a program was stopped.",
 ["source/interpreter/flow.c","source/interpreter/runner.c","source/interpreter/label.c"],
 [("stack of loops and subroutines","source/interpreter/flow.c cmd_next, cmd_gosub, cmd_return"),("start and skipping of loops","source/interpreter/flow.c cmd_for, cmd_to"),("label search","source/interpreter/label.c find_label")],
 ["the trace of the statements carried out, all variables and the error text when the prompt is back"], "programs with arbitrary or nearly structured nests record the number of every statement in an array; trace, variables and error are compared with a stack machine in up to three rounds stopped by SELECT at seeded frames")
prop("P30", "A name is one variable, as long as the session lasts and up to its limits",
 "A number, string, number array or string array is reached by its name - all of up to 16 characters - and only by it, from a program as from a typed line, and keeps its value until it is assigned or CLEARed, however many names there are. DIM, first use and CLEAR create and remove arrays of exactly the size given, with every element 0 or empty. A name or array that no longer fits is refused with Out of memory and changes nothing; every free place can be used, FREEVAR counts them, and a program stopped by SELECT has made a prefix of its assignments.",
 ["histories","configurations","crash_points","schedules"], "all histories of uses of names, in memories of all sizes, with programs stopped at any moment",
 "Tests use a handful of names in a fresh memory; confusion of names, lost places and arrays that survive or vanish need many names, failed statements and CLEAR in one history.",
 ["source/interpreter/vars.c","source/interpreter/arrays.c","source/interpreter/runner.c","source/subsystem/sysvars.c"],
 [("table of names","source/interpreter/vars.c search_name_type, get_var, get_new_arr_var, reset_var"),("array memory","source/interpreter/arrays.c get_init_new_arr, reset_arr"),("element access","source/interpreter/vars.c get_arr_entry_via_ptr"),("free places","source/subsystem/sysvars.c sys_freevar")],
 ["all variables, elements and messages after every line"], "histories of statements on names that collide easily, of up to 16 characters, run one by one in a machine with 16 to 2048 places and little array memory, and filled to the last place at the end; a reference model gives every answer and value")
