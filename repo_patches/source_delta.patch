From a90952f4e813de6349bf3110cba44810d3eb81c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 01/82] fix: SORT on an array that was never dimensioned
 dereferenced NULL

---
 source/subsystem/variables.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index f40f36e..8339c29 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -106,6 +106,18 @@ void quick_sort(union value* data, union value** extra, int start, int end, comp
 	quick_sort(data, extra, p + 1, end, comp);
 }
 
+/// Gets array from stack, default-initializing it if it was never dimensioned
+/// (same behavior as reading or writing an element of it)
+static inline union value* _sort_get_array(struct ptc* p, int index){
+	struct stack_entry* e = stack_get(&p->stack, index);
+	union value* arr = e->value.ptr;
+	if (!arr->ptr && !get_arr_entry_via_ptr(&p->vars, arr, 0, ARR_DIM2_UNUSED, e->type)){
+		p->exec.error = p->vars.error;
+		return NULL;
+	}
+	return arr->ptr;
+}
+
 /// @note Does not correctly handle permuting the same array as is being sorted!
 void _cmd_sort_shared(struct ptc* p, comparison comp){
 	int start;
@@ -115,7 +127,8 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 		ERROR(ERR_SYNTAX); // 32 is max number of arrays
 	}
 	// SORT start, size, arr, [arr1, arr2, ...]
-	union value* data = *(void**)stack_get(&p->stack, 2)->value.ptr;
+	union value* data = _sort_get_array(p, 2);
+	if (!data) return;
 //	iprintf("%p\n", (void*)data);
 	int array_min_size = arr_size(data, ARR_DIM1);
 	// In concept this is fine but PTC doesn't allow it
@@ -123,7 +136,8 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 		ERROR(ERR_SORT_2D);
 	}
 	for (int k = 3; k < p->stack.stack_i; ++k){
-		extra[k-3] = *(union value**)stack_get(&p->stack, k)->value.ptr;
+		extra[k-3] = _sort_get_array(p, k);
+		if (!extra[k-3]) return;
 		if ((int)arr_size(extra[k-3], ARR_DIM1) < array_min_size){
 			array_min_size = arr_size(extra[k-3], ARR_DIM1);
 		}
-- 
2.43.0


From 2a934c611728fff08a830b9c15ca9eb79154b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 02/82] fix: GPAINT with the color already present in the area
 never ended

---
 source/subsystem/graphics.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 2d6bc3b..7173cf1 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -450,8 +450,10 @@ void cmd_gcircle(struct ptc* p){
 // Based on "combined-scan-and-fill" algorithm listed at
 // https://en.wikipedia.org/wiki/Flood_fill?useskin=monobook
 // match: positive = only fill this color negative = fill any other color
-static inline bool inside(u8* data, int x, int y, int match){
+// color: fill color, which is never filled again (otherwise, filling never ends)
+static inline bool inside(u8* data, int x, int y, int match, int color){
 	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT) return 0;
+	if (data[grp_index(x,y)] == color) return 0;
 	
 	return match >= 0 ? (data[grp_index(x,y)] == match) : (data[grp_index(x,y)] != -match - 1); // matching first color
 }
@@ -509,8 +511,8 @@ void cmd_gpaint(struct ptc* p){
 		PAINT_STACK_GET(x1, x2, y, dy);
 		
 		x = x1;
-		if (inside(data, x, y, match)){
-			while(inside(data, x-1, y, match)){
+		if (inside(data, x, y, match, c)){
+			while(inside(data, x-1, y, match, c)){
 				data[grp_index(x-1, y)] = c;
 				--x;
 			}
@@ -519,7 +521,7 @@ void cmd_gpaint(struct ptc* p){
 			}
 		}
 		while(x1 <= x2){
-			while(inside(data, x1, y, match)){
+			while(inside(data, x1, y, match, c)){
 				data[grp_index(x1, y)] = c;
 				++x1;
 			}
@@ -530,7 +532,7 @@ void cmd_gpaint(struct ptc* p){
 				PAINT_STACK_ADD(x2 + 1, x1 - 1, y - dy, -dy);
 			}
 			++x1;
-			while (x1 < x2 && !inside(data, x1, y, match)){
+			while (x1 < x2 && !inside(data, x1, y, match, c)){
 				++x1;
 			}
 			x = x1;
-- 
2.43.0


From 9a781933b4f8d4cb9bd67fc46b08b3c5a15532d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 03/82] fix: BREAK while LINPUT holds a full line aborted the
 interpreter

---
 source/subsystem/console.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 08e9ba6..85f1d8e 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -436,7 +436,11 @@ void cmd_linput(struct ptc* p){
 	con_prompt(con, prompt_str);
 	
 	u16* output = shared_input(p);
-	if (p->exec.error) return;
+	if (p->exec.error){
+		// a full line leaves the cursor past the edge, where nothing can be printed
+		if (con->x >= CONSOLE_WIDTH) con_newline(con, true);
+		return;
+	}
 
 	// Now store the result to a new string
 	struct string* s = get_new_str(&p->strs);
-- 
2.43.0


From f9f94cf8fee8b6baa60d8b846d4be83fdf03208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 04/82] fix: BREAK and window close requests could be lost

They were written directly to exec.error by the window thread while the
program thread saves, restores and resets that field (ACLS, NEXT, the
DIRECT mode loop), so a request could vanish, and closing the window
could wait for the program forever. A program interrupted between an
argument count and its use also left that count for the next program.
---
 source/interpreter/flow.c   |  2 ++
 source/interpreter/runner.c |  3 ++-
 source/main.c               |  2 +-
 source/subsystem/console.c  |  4 ++--
 source/subsystem/input.c    |  5 +----
 source/subsystem/panel.c    |  2 +-
 source/system.c             | 18 +++++++++++-------
 source/system.h             | 25 +++++++++++++++++++++++++
 8 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 38cae71..7c05afa 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -110,7 +110,9 @@ void cmd_next(struct ptc* p){
 	for_condition.size = to_size;
 	for_condition.data = code.data + to_start;
 	run(for_condition, p);
+	temp.error = p->exec.error;
 	p->exec = temp; //restore program state
+	if (p->exec.error) return; // no valid loop condition
 	
 	// now stack should contain (END, [STEP])
 	s32* current = (s32*)c->var;
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 40a9d51..b82c712 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -179,9 +179,10 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	r->index = 0;
 	r->data_index = 0;
 	r->data_offset = 0;
+	r->argcount = 0; // may be left over from an interrupted execution
 	p->stack.stack_i = 0;
 
-	while (r->index < r->code.size && !p->exec.error){
+	while (r->index < r->code.size && !check_interrupt(p)){
 		// get one instruction and execute it
 		start_time(&p->time);
 		char instr = r->code.data[r->index++];
diff --git a/source/main.c b/source/main.c
index 7655672..d3873e3 100644
--- a/source/main.c
+++ b/source/main.c
@@ -314,7 +314,7 @@ int main(int argc, char** argv){
 	sfRenderWindow_destroy(window);
 
 	// this causes program to stop execution after instruction finishes
-	ptc->exec.error = ERR_SHUTDOWN;
+	ptc->shutdown_request = true;
 	iprintf("Waiting for program thread to terminate\n");
 	thrd_join(prog_thread, NULL);
 
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 85f1d8e..658bcb2 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -222,7 +222,7 @@ u16* shared_input(struct ptc* p){
 		// cases to run without waiting for an update from another thread
 		inkey = get_inkey(&p->input);
 		keyboard = get_pressed_key(p);
-		while (!inkey && !con->test_mode && t == get_time(&p->time) && !p->exec.error){
+		while (!inkey && !con->test_mode && t == get_time(&p->time) && !check_interrupt(p)){
 			// sleep for user input
 			struct timespec tspec = {.tv_nsec=FRAME_TENTH_NS};
 			thrd_sleep(&tspec, NULL);
@@ -278,7 +278,7 @@ u16* shared_input(struct ptc* p){
 			out_index += out_index < out_index_max;
 		}
 		p->console.x = out_index;
-	} while (!p->exec.error && inkey != '\r'
+	} while (!check_interrupt(p) && inkey != '\r'
 			&& !check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4));
 	p->panel.type = old_panel;
 	p->console.cursor_visible = false;
diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index 05273c9..ae91cef 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -39,11 +39,8 @@ void set_input(struct ptc* p, int b) {
 		}
 	}
 	// check for SELECT break here
-	// TODO:CODE:LOW is this thread-safe?
-	// writing to p->exec.error: may be destroyed by a few specific commands?
-	// no issues yet during testing
 	if (i->times[BUTTON_ID_SELECT].frame == 1){
-		p->exec.error = ERR_BREAK;
+		p->break_request = true;
 	}
 }
 
diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 9f125c9..cfabab8 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -371,7 +371,7 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 	
 	if (pressed_key){
 		if (pressed_key == 1){
-			ptc->exec.error = ERR_BREAK;
+			ptc->break_request = true;
 		} else if (pressed_key == 47){
 			// shift
 			p->shift ^= PNL_SHIFT;
diff --git a/source/system.c b/source/system.c
index 5bd867a..9649cf1 100644
--- a/source/system.c
+++ b/source/system.c
@@ -102,7 +102,7 @@ void cmd_acls(struct ptc* p){
 	
 	p->exec.error = tokenize(&acls_program, &acls_bc);
 	run(acls_bc, p);
-	if (p->exec.error) return;
+	cur_exec.error = p->exec.error; // an error ends the program, but its state must be kept
 	p->exec = cur_exec;
 	
 	// Restore proper program variable state
@@ -142,7 +142,7 @@ void cmd_vsync(struct ptc* p){
 	int delay = STACK_INT(0);
 	
 	int64_t start_time = get_time(&p->time);
-	while (get_time(&p->time) - start_time < delay && !p->exec.error){
+	while (get_time(&p->time) - start_time < delay && !check_interrupt(p)){
 		// wait for 10ms before checking again
 		thrd_sleep(&(struct timespec){.tv_nsec=(1e7)}, NULL);
 	}
@@ -162,7 +162,7 @@ void cmd_wait(struct ptc* p){
 	int64_t start_time = get_time(&p->time);
 	
 	//thrd_sleep(&(struct timespec){.tv_sec = big, .tv_nsec=nsec}, NULL);
-	while (get_time(&p->time) - start_time < delay && !p->exec.error){
+	while (get_time(&p->time) - start_time < delay && !check_interrupt(p)){
 		// wait for 10ms before checking again
 		thrd_sleep(&(struct timespec){.tv_nsec=(1e7)}, NULL);
 	}
@@ -355,7 +355,6 @@ int launch_system(void* launch_info){
 	// Setup complete
 	con_puts(&p->console, "S\45Small BASIC Computer            READY");
 	con_newline(&p->console, true);
-	bool running = true;
 	
 	int state = LAUNCH_PROMPT;
 	int debug = 0;
@@ -365,9 +364,13 @@ int launch_system(void* launch_info){
 	
 	// TODO:IMPL:LOW Add configuration method for optimizations
 	int opts = TOKOPT_NONE;
-	while (running){
-		running = p->exec.error != ERR_SHUTDOWN;
+	while (true){
 		p->exec.error = ERR_NONE; // prepare for next execution
+		if (p->shutdown_request){
+			p->exec.error = ERR_SHUTDOWN;
+			break;
+		}
+		p->break_request = false; // was meant for the execution that just ended
 		p->calls.stack_i = 0; // TODO:IMPL:MED Determine a better way to handle this
 		int old_state = state;
 		iprintf("MAIN state=%d\n", state);
@@ -396,7 +399,8 @@ int launch_system(void* launch_info){
 					p->exec.error_info[0] = 0; // clear signal info
 					break;
 				}
-				if (p->exec.error == ERR_SHUTDOWN){
+				// don't execute anything if the line wasn't entered (BREAK, shutdown)
+				if (p->exec.error){
 					break;
 				}
 				
diff --git a/source/system.h b/source/system.h
index c1f06da..1175e3e 100644
--- a/source/system.h
+++ b/source/system.h
@@ -6,6 +6,7 @@
 /// 
 
 #include "interpreter.h"
+#include "error.h"
 
 #include "subsystem/resources.h"
 #include "subsystem/console.h"
@@ -66,6 +67,18 @@ struct ptc {
 	struct runner exec;
 	/// Previous state of execution (to be used for CONT and ERR/ERL)
 	struct runner exec_old;
+	/// Pending requests to stop execution (BREAK or shutdown).
+	/// These are separate from `exec.error` because they are written by the
+	/// input or window thread at any time, while the program thread saves,
+	/// restores, and resets `exec.error` as a part of normal execution.
+#ifdef PC
+	_Atomic bool break_request;
+	_Atomic bool shutdown_request;
+#endif
+#ifndef PC
+	volatile bool break_request;
+	volatile bool shutdown_request;
+#endif
 	
 	struct value_stack stack;
 	
@@ -114,6 +127,18 @@ int launch_system(void*);
 // Run a program on a system
 int token_and_run(struct ptc* p, struct program* prg, struct bytecode* bc, int tokopts);
 
+/// Moves any pending stop request into the current execution's error.
+///
+/// @return true if execution must stop (for any reason)
+static inline bool check_interrupt(struct ptc* p){
+	if (p->shutdown_request){
+		p->exec.error = ERR_SHUTDOWN;
+	} else if (p->break_request){
+		p->exec.error = ERR_BREAK;
+	}
+	return p->exec.error;
+}
+
 void cmd_acls(struct ptc*);
 void cmd_visible(struct ptc*);
 void cmd_vsync(struct ptc*);
-- 
2.43.0


From 68928218c837c4547dbdede20b866ead34079cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 05/82] fix: LOAD and EXEC of an incomplete or damaged file
 replaced data in use

Programs, packaged resources and single resources are now read and checked
completely before anything is replaced.
---
 source/extension/compress.c  |   5 +-
 source/extension/compress.h  |   2 +-
 source/subsystem/resources.c | 341 ++++++++++++++++++++---------------
 source/subsystem/resources.h |   2 +-
 4 files changed, 200 insertions(+), 150 deletions(-)

diff --git a/source/extension/compress.c b/source/extension/compress.c
index 2ba6ccf..420f4cd 100644
--- a/source/extension/compress.c
+++ b/source/extension/compress.c
@@ -123,7 +123,8 @@ int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bi
 // note: decompression happens from low to high address
 // if compressed is placed at end of destination range,
 // decompression should only overwrite bytes that have already been read
-unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits){
+// returns the number of bits read from source_data
+int sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits){
 	// Cache info
 	unsigned char cache[128] = {0};
 	const int cache_maximum = 1 << cache_bits;
@@ -151,7 +152,7 @@ unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned c
 	}
 	printf("\n");
 	
-	return output;
+	return source_bit;
 }
 
 /*int main(int argc, char** argv){
diff --git a/source/extension/compress.h b/source/extension/compress.h
index dc609aa..ae326e4 100644
--- a/source/extension/compress.h
+++ b/source/extension/compress.h
@@ -25,4 +25,4 @@ struct sbc_compression_result sbc_optimal_compress(const unsigned char* const so
 
 int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bits);
 
-unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits);
+int sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits);
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 1f93206..cdee3de 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -76,105 +76,183 @@ const char package_resources[] =
 // bit 44
 ;
 
+/// Largest file that is accepted when loading.
+/// (A program of maximum size with every packaged resource is about 1.3MB)
+#define MAX_FILE_SIZE 0x400000
+
+/// Reads a complete file into newly allocated memory.
+///
+/// Files are only interpreted after they have been read completely, so an
+/// incomplete or damaged file never replaces data that is in use.
+///
+/// @param path Path of file
+/// @param size Size of file is written here
+/// @return Contents of file (caller must free), or NULL on any failure
+static u8* read_entire_file(const char* path, u32* size){
+	FILE* f = fopen(path, "rb");
+	if (!f){
+		FILE_ERROR("Failed to load file");
+	}
+	if (fseek(f, 0, SEEK_END)){
+		FILE_CLOSE("Failed to seek to end of file");
+	}
+	long file_size = ftell(f);
+	if (file_size < 0 || file_size > MAX_FILE_SIZE){
+		FILE_CLOSE("Failed to determine file size");
+	}
+	if (fseek(f, 0, SEEK_SET)){
+		FILE_CLOSE("Failed to seek to file start");
+	}
+	u8* data = malloc(file_size + 1); // never zero
+	if (!data){
+		FILE_CLOSE("Failed to allocate memory for file");
+	}
+	if (fread(data, sizeof(u8), file_size, f) != (size_t)file_size){
+		free(data);
+		FILE_CLOSE("Could not read complete file");
+	}
+	fclose(f);
+	*size = file_size;
+	return data;
+}
+
+/// Gets offset of the resource within file contents, after checking the file's type.
+///
+/// @return Offset immediately after type string, or 0 if the file is not of this type
+static u32 find_resource_data(const u8* data, u32 size, int type){
+	u32 offset;
+	if (size >= 4 && !memcmp(data, "PX01", 4)){
+		// Petit Computer SD format file: type string is at end of header
+		offset = HEADER_SIZE;
+	} else if (size >= 4 && !memcmp(data, "PETC", 4)){
+		// Petit Computer internal file format: starts with type string
+		offset = HEADER_TYPE_STR_SIZE;
+	} else {
+		return 0;
+	}
+	// Compare type only, as the version number can differ
+	if (size < offset || memcmp(data + offset - 4, internal_type_str[type] + HEADER_TYPE_STR_SIZE - 4, 4)){
+		return 0;
+	}
+	return offset;
+}
+
+/// Checks that the contents of a resource can be used.
+///
+/// @param data Resource data, exactly resource_size[type] bytes
+static bool check_resource_data(const u8* data, int type){
+	if (type != TYPE_MEM) return true; // every possible content is valid
+
+	// MEM length must be within the string
+	u32 len;
+	assert(LITTLE_ENDIAN);
+	memcpy(&len, data + MEM_SIZE - sizeof(len), sizeof(len));
+	return len <= MAX_STRLEN;
+}
+
 int load_program(struct ptc* p, const char* search_path, const char* name){
-	int size_read;
 	char path[MAX_FILEPATH_LENGTH+1] = {0};
 	if (!create_path(path, search_path, name, ".PTC")){
 		FILE_ERROR("File name too long");
 	}
 
-	FILE* f = fopen(path, "rb");
-	if (!f){
-		FILE_ERROR("Failed to load file");
+	u32 size;
+	u8* data = read_entire_file(path, &size);
+	if (!data){
+		FILE_ERROR("Could not read program");
 	}
-	struct ptc_header h;
-	fread(h.magic, sizeof(char), 4, f);
-	CHECK_FILE_ERROR("Failed to read file magic ID");
-	fseek(f, 0, SEEK_SET);
-	CHECK_FILE_ERROR("Failed to seek to file start");
 
 	// only works on little-endian devices...
 	// (reading into header struct directly)
 	assert(LITTLE_ENDIAN);
-	if (!strncmp(h.magic, "PX01", 4)){
-		size_read = fread(&h, sizeof(char), PRG_HEADER_SIZE, f);
-		CHECK_FILE_ERROR("Could not read header correctly");
-		if (size_read < PRG_HEADER_SIZE){
-			FILE_CLOSE("Could not read full header");
-		}
-	} else if (!strncmp(h.magic, "PETC", 4)){
-		// internal format
-		int internal_header_size = PRG_HEADER_SIZE - HEADER_SIZE + HEADER_TYPE_STR_SIZE;
-		size_read = fread(h.type_str, sizeof(u8), internal_header_size, f);
-		CHECK_FILE_ERROR("Could not read program header");
-		if (size_read < internal_header_size){
-			FILE_CLOSE("Could not read complete program header");
-		}
+	struct ptc_header h = {0};
+	u32 offset = find_resource_data(data, size, TYPE_PRG);
+	u32 header_size = PRG_HEADER_SIZE - HEADER_SIZE;
+	if (!offset || size - offset < header_size){
+		free(data);
+		FILE_ERROR("Not a program file");
+	}
+	memcpy(&h.package_high, data + offset, header_size);
+	if (offset == HEADER_SIZE){
+		memcpy(h.name, ((struct ptc_header*)data)->name, sizeof(h.name));
 	} else {
-		FILE_CLOSE("Unknown PRG file format");
+		strncpy(h.name, name, sizeof(h.name)); // internal format does not contain a name
 	}
-
-	// Read program data
-	size_read = fread(get_resource_ptr(p, "PRG"), sizeof(u8), h.prg_size, f);
-	if (size_read < (int)h.prg_size){
-		FILE_CLOSE("Could not read complete program");
+	offset += header_size;
+	if (h.prg_size > MAX_SOURCE_SIZE || size - offset < h.prg_size){
+		free(data);
+		FILE_ERROR("Could not read complete program");
 	}
-	p->exec.prg.size = size_read;
+	u32 prg_offset = offset;
 	// 4 -> +0
 	// 1 -> +3
 	// 2 -> +2
 	// 3 -> +1
-	fseek(f, "\0\3\2\1"[h.prg_size & 3], SEEK_CUR);
-	CHECK_FILE_ERROR("Could not seek past program");
+	offset += h.prg_size + "\0\3\2\1"[h.prg_size & 3];
+
+	// Read packages as specified by package bits
+	uint64_t package = (((uint64_t)h.package_high) << 32) | h.package_low;
+
+	// First pass checks that everything is present; second pass loads it.
+	for (int load = 0; load <= 1; ++load){
+		u32 res_offset = offset;
+		for (uint_fast8_t i = 0; i < PACKAGE_STR_BIN_DIGITS; ++i){
+			// Check if resource needs to be loaded
+			if (!(package & ((uint64_t)1<<i))) continue;
+			// Create resource type as SBC string
+			char resource[2+MAX_RESOURCE_TYPE_LENGTH+1] = {BC_STRING, 0};
+			strncpy(resource + 2, package_resources + MAX_RESOURCE_TYPE_LENGTH * i, MAX_RESOURCE_TYPE_LENGTH);
+			resource[1] = strlen(resource + 2);
+			iprintf("res: %d,%d, %.*s", i, resource[1], resource[1], resource+2);
+			// Get destination for this resource index
+			struct res_info info = get_verified_resource_type(p, resource);
+			u32 res_size = resource_size[info.type_id];
+			if (!load){
+				if (res_offset > size || size - res_offset < HEADER_TYPE_STR_SIZE + res_size){
+					free(data);
+					FILE_ERROR("Could not read complete resource");
+				}
+				// Check type string matches
+				if (memcmp(data + res_offset, internal_type_str[info.type_id], HEADER_TYPE_STR_SIZE)){
+					free(data);
+					FILE_ERROR("Internal type string does not match expected type");
+				}
+				if (!check_resource_data(data + res_offset + HEADER_TYPE_STR_SIZE, info.type_id)){
+					free(data);
+					FILE_ERROR("Resource data is invalid");
+				}
+			} else {
+				// Load resource
+				memcpy(info.data, data + res_offset + HEADER_TYPE_STR_SIZE, res_size);
+				// Mark as needing refresh
+				if (info.type_id == TYPE_CHR){
+					p->res.regen_chr[get_chr_index(p, info.type)] = true;
+				} else if (info.type_id == TYPE_COL){
+					p->res.regen_col = true;
+				} else if (info.type_id == TYPE_MEM){
+					p->res.mem_str.len = p->res.mem.size;
+				}
+			}
+			res_offset += HEADER_TYPE_STR_SIZE + res_size;
+		}
+	}
+
+	// Copy program
+	memcpy(p->exec.prg.data, data + prg_offset, h.prg_size);
+	p->exec.prg.size = h.prg_size;
 
 	// Copy loaded program name
 	memset(p->res.prgname, '\0', sizeof(p->res.prgname)); // lazy null termination
 	strncpy(p->res.prgname, h.name, PRGNAME_STR_LENGTH);
 
-	// Read packages as specified by package bits
-	uint64_t package = (((uint64_t)h.package_high) << 32) | h.package_low;
 	// Build package string
 	for (uint_fast8_t i = 0; i < PACKAGE_STR_LENGTH; ++i){
 		p->res.package[PACKAGE_STR_LENGTH - i - 1] = hex_digits[(package & (((uint64_t)0xf) << (i * 4))) >> (i * 4)];
 	}
-//	iprintf("Package bitmask: %lx ", package);
 	iprintf("string: %s\n", p->res.package);
 
-	for (uint_fast8_t i = 0; i < PACKAGE_STR_BIN_DIGITS; ++i){
-		// Check if resource needs to be loaded
-		if (!(package & ((uint64_t)1<<i))) continue;
-		// Create resource type as SBC string
-		char resource[2+MAX_RESOURCE_TYPE_LENGTH+1] = {BC_STRING, 0};
-		strncpy(resource + 2, package_resources + MAX_RESOURCE_TYPE_LENGTH * i, MAX_RESOURCE_TYPE_LENGTH);
-		resource[1] = strlen(resource + 2);
-		iprintf("res: %d,%d, %.*s", i, resource[1], resource[1], resource+2);
-		// Get destination for this resource index
-		struct res_info info = get_verified_resource_type(p, resource);
-		// Check type string matches
-		char type_str[HEADER_TYPE_STR_SIZE];
-		int read = fread(type_str, sizeof(char), HEADER_TYPE_STR_SIZE, f);
-		if (read != HEADER_TYPE_STR_SIZE){
-			FILE_CLOSE("Failed to skip type string");
-		}
-		iprintf("%d,%12s\n", info.type_id, type_str);
-		if (strncmp(type_str, internal_type_str[info.type_id], HEADER_TYPE_STR_SIZE)){
-			FILE_CLOSE("Internal type string does not match expected type");
-		}
-		// Load resource
-		read = fread(info.data, sizeof(u8), resource_size[info.type_id], f);
-		if (read != resource_size[info.type_id]){
-			FILE_CLOSE("Could not read complete resource");
-		}
-		// Mark as needing refresh
-		if (info.type_id == TYPE_CHR){
-			p->res.regen_chr[get_chr_index(p, info.type)] = true;
-		} else if (info.type_id == TYPE_COL){
-			p->res.regen_col = true;
-		}
-	}
-
-	// This returns the size of the read program data.
-	FILE_OK();
+	free(data);
+	return 1;
 }
 
 bool create_path(char dest[MAX_FILEPATH_LENGTH+1], const char* base, const char* name, const char* ext){
@@ -311,115 +389,86 @@ int check_save_res(void* src, const char* search_path, const char* name, int typ
 	}
 }
 
-// TODO:ERR:LOW Add file type validation
 int check_load_res(u8* dest, const char* search_path, const char* name, int type){
-	char path[MAX_FILEPATH_LENGTH+1] = {0};
-	if (!create_path(path, search_path, name, ".PTC")){
-		FILE_ERROR("File name too long");
-	}
-
 	if (type == TYPE_PRG){
 		return load_program((struct ptc*)dest, search_path, name);
-	} else if (type == TYPE_MEM){
-		return check_load_file(dest, search_path, name, resource_size[type]);
-	} else if (type >= TYPE_CHR && type <= TYPE_COL){
-		return check_load_file(dest, search_path, name, resource_size[type]);
+	} else if (type > TYPE_PRG && type < TYPE_INVALID){
+		return check_load_file(dest, search_path, name, type);
 	}
-	FILE_ERROR("Unknown resource type");
+	iprintf("Unknown resource type\n");
+	return 0;
 }
 
 // Checks the file type and loads the correct data from the file.
+// The destination is only changed if the entire file is correct.
 // Note: path, name must be null-terminated
-int check_load_file(u8* dest, const char* search_path, const char* name, int size){
-	int size_read;
+int check_load_file(u8* dest, const char* search_path, const char* name, int type){
+	const u32 res_size = resource_size[type];
 	char path[MAX_FILEPATH_LENGTH+1] = {0};
 	if (!create_path(path, search_path, name, ".PTC")){
 		FILE_ERROR("File name too long");
 	}
 
-	FILE* f = fopen(path, "rb");
-	if (!f){
+	u32 size;
+	u8* data = read_entire_file(path, &size);
+	if (!data){
 		FILE_ERROR("Failed to load file");
 	}
-	char check_type[4] = {0};
-	fread(check_type, sizeof(char), 4, f);
-	CHECK_FILE_ERROR("Failed to check file type");
-	// Note: strncmp returns 0 if equal
-	if (!strncmp(check_type, "PX01", 4)){
-		// Petit Computer SD format file, header: skip header info
-		if (fseek(f, HEADER_SIZE, SEEK_SET)){
-			FILE_CLOSE("Failed to seek past header");
-		}
-
-		size_read = fread(dest, sizeof(u8), size, f);
-		CHECK_FILE_ERROR("Failed to read file");
-		FILE_OK();
-	} else if (!strncmp(check_type, "PETC", 4)){
-		// Petit Computer internal file format: skip type
-		if (fseek(f, 12, SEEK_SET)){
-			FILE_CLOSE("Failed to seek past type");
-		}
-		size_read = fread(dest, sizeof(u8), size, f);
-		CHECK_FILE_ERROR("Failed to read file");
-		FILE_OK();
-	} else if (!strncmp(check_type, "SBCC", 4)){
+	if (size >= 8 && !memcmp(data, "SBCC", 4)){
 		// SBC compressed format (something a bit more inventive)
-		if (fseek(f, 4, SEEK_SET)){
-			FILE_CLOSE("Failed to seek past file type id");
-		}
-		u8 header[4];
-		fread(header, sizeof(u8), 4, f);
-		CHECK_FILE_ERROR("Failed to read header");
-
-		// Determine size of file
-		if (fseek(f, 0, SEEK_END)){
-			FILE_CLOSE("Failed to seek to end of file");
+		int bits = data[4];
+		u32 expected_size = data[5] | (data[6] << 8) | (data[7] << 16);
+		// An entry uses at most max(bits, 8)+1 bits, so decompression never
+		// reads past this amount of data (even if the file is too short)
+		u32 padded_size = 8 + res_size * 9 / 8 + 2;
+		u8* padded = calloc(padded_size + res_size, 1);
+		if (!padded || bits > 7 || expected_size != res_size){
+			free(padded);
+			free(data);
+			FILE_ERROR("Invalid compressed file");
 		}
-		int file_size = ftell(f);
-		if (file_size < 0){
-			FILE_CLOSE("Failed to determine file size");
-		}
-		rewind(f); // resets errors apparently
-
-		// Use destination as temporary storage
-		// causes brief artifacting but requires zero extra memory
-		u8* compressed = dest + size - file_size; // places file at end of destination
-		size_read = fread(compressed, sizeof(u8), file_size, f);
-		CHECK_FILE_ERROR("Failed to read file");
-		compressed += 8; // skip header
-
-		int bits = header[0];
-		int expected_size = header[1] | (header[2] << 8) | (header[3] << 16);
-		(void)expected_size; // for when assert fails
-		assert(expected_size == size); // request == expected
-		sbc_decompress(compressed, dest, size, bits);
-
-		FILE_OK();
-	} else {
-		FILE_CLOSE("Failed to load file (Unknown format)");
-	}
+		memcpy(padded, data, size < padded_size ? size : padded_size);
+		u8* result = padded + padded_size;
+		int bits_used = sbc_decompress(padded + 8, result, res_size, bits);
+		bool valid = (u32)(bits_used + 7) / 8 + 8 <= size && check_resource_data(result, type);
+		if (valid) memcpy(dest, result, res_size);
+		free(padded);
+		free(data);
+		if (!valid) FILE_ERROR("Could not read complete compressed file");
+		return 1;
+	}
+
+	// Petit Computer formats: skip header info and type
+	u32 offset = find_resource_data(data, size, type);
+	if (!offset || size - offset < res_size || !check_resource_data(data + offset, type)){
+		free(data);
+		FILE_ERROR("File is not a complete resource of this type");
+	}
+	memcpy(dest, data + offset, res_size);
+	free(data);
+	return 1;
 }
 
 // Load from file `name` into dest
 // returns false on failure
 bool load_chr(u8* dest, const char* path, const char* name){
-	return check_load_file(dest, path, name, CHR_SIZE);
+	return check_load_file(dest, path, name, TYPE_CHR);
 }
 
 // load from file `name` into dest
 // returns false on failure
 bool load_col(u8* dest, const char* path, const char* name){
-	return check_load_file(dest, path, name, COL_SIZE);
+	return check_load_file(dest, path, name, TYPE_COL);
 }
 
 // load from file `name` into dest
 // returns false on failure
 bool load_scr(u16* dest, const char* path, const char* name){
-	return check_load_file((u8*)dest, path, name, SCR_SIZE);
+	return check_load_file((u8*)dest, path, name, TYPE_SCR);
 }
 
 bool load_grp(u8* dest, const char* path, const char* name){
-	return check_load_file(dest, path, name, GRP_SIZE);
+	return check_load_file(dest, path, name, TYPE_GRP);
 }
 
 void init_col(struct resources* r){
@@ -829,8 +878,8 @@ void cmd_load(struct ptc* p){
 	if (p->exec.error) return; // error condition already met, fail here
 
 	if (info.type_id == TYPE_PRG) info.data = p;
-	int size = check_load_res(info.data, p->res.search_path, info.name, info.type_id);
-	p->res.result = size != 0;
+	p->res.result = check_load_res(info.data, p->res.search_path, info.name, info.type_id);
+	if (!p->res.result) return; // nothing was changed
 
 	switch (info.type_id){
 		case TYPE_CHR:
diff --git a/source/subsystem/resources.h b/source/subsystem/resources.h
index 38cf14b..d4ba792 100644
--- a/source/subsystem/resources.h
+++ b/source/subsystem/resources.h
@@ -223,7 +223,7 @@ struct res_info get_verified_resource(struct ptc* p, const void* res);
 bool verify_file_type(const char* path, int type);
 bool verify_search_file_type(const char* search_path, const char* name, int type);
 int check_load_res(u8* dest, const char* search_path, const char* name, int type);
-int check_load_file(u8* dest, const char* search_path, const char* name, int size);
+int check_load_file(u8* dest, const char* search_path, const char* name, int type);
 
 /// This includes packaged resources.
 int load_program(struct ptc* p, const char* search_path, const char* name);
-- 
2.43.0


From 7042e86709734bb75d00bfcaebc395e7ac102e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 06/82] fix: SAVE reported success for incomplete files and
 destroyed the previous file

The complete file is now written and closed before it replaces an existing
one. SAVE of the PRG resource also no longer uses its data as a struct.
---
 source/subsystem/resources.c | 88 ++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 40 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index cdee3de..50c8096 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -12,6 +12,7 @@
 #include "ptc.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -22,11 +23,6 @@
 	return 0;\
 } while (0)
 
-#define FILE_OK() do {\
-	fclose(f);\
-	return size_read;\
-} while (0)
-
 /// Error indication and file cleanup
 #define FILE_CLOSE(msg) do {\
 	fclose(f);\
@@ -347,46 +343,58 @@ int load_file(u8* dest, const char* path, int skip, int len){
 	return read;
 }
 
+/// Writes a complete resource to an open file
+static bool write_resource(FILE* f, void* src, int type){
+	if (fwrite(internal_type_str[type], 1, HEADER_TYPE_STR_SIZE, f) != HEADER_TYPE_STR_SIZE){
+		return false;
+	}
+	if (type != TYPE_PRG){
+		return fwrite(src, 1, resource_size[type], f) == (size_t)resource_size[type];
+	}
+
+	struct program prg = *(struct program*)src;
+
+	char data[12] = {0};
+	data[8] = prg.size & 0xff;
+	data[9] = (prg.size >> 8) & 0xff;
+	data[10] = (prg.size >> 16) & 0xff;
+
+	return fwrite(data, 1, 12, f) == 12 && fwrite(prg.data, 1, prg.size, f) == prg.size;
+}
+
 int check_save_res(void* src, const char* search_path, const char* name, int type){
-	int size_read;
 	char path[MAX_FILEPATH_LENGTH+1] = {0};
-	if (!create_path(path, search_path, name, ".PTC")){
+	// The complete file is written before replacing an existing one, so that
+	// neither an error nor an interruption can leave an incomplete file.
+	char temp_path[MAX_FILEPATH_LENGTH+1] = {0};
+	if (!create_path(path, search_path, name, ".PTC") || !create_path(temp_path, search_path, name, ".TMP")){
 		FILE_ERROR("File name too long");
 	}
+	if (type < TYPE_PRG || type >= TYPE_INVALID){
+		FILE_ERROR("Unimplemented or invalid resource save type");
+	}
 
-	if (type == TYPE_PRG){
-		FILE* f = fopen(path, "wb");
-		if (!f){
-			FILE_ERROR("Could not open file for writing");
-		}
-		struct program prg = *(struct program*)src;
-
-		char data[12] = {0};
-		data[8] = prg.size & 0xff;
-		data[9] = (prg.size >> 8) & 0xff;
-		data[10] = (prg.size >> 16) & 0xff;
-
-		fwrite(internal_type_str[type], 1, 12, f);
-		CHECK_FILE_ERROR("Failed to write file type");
-		fwrite(data, 1, 12, f);
-		CHECK_FILE_ERROR("Failed to write program header");
-		size_read = fwrite(prg.data, 1, prg.size, f);
-		CHECK_FILE_ERROR("Failed to write program data");
-		FILE_OK(); // close and return size_read
-	} else if (type > TYPE_PRG && type < TYPE_INVALID) {
-		FILE* f = fopen(path, "wb");
-		if (!f){
-			FILE_ERROR("Could not open file for writing");
+	FILE* f = fopen(temp_path, "wb");
+	if (!f){
+		FILE_ERROR("Could not open file for writing");
+	}
+	bool written = write_resource(f, src, type);
+	// closing can fail as well, since it writes buffered data
+	if (fclose(f)) written = false;
+
+	if (written && rename(temp_path, path)){
+		written = false;
+		if (errno == EEXIST){
+			// This system does not replace existing files
+			remove(path);
+			written = !rename(temp_path, path);
 		}
-
-		fwrite(internal_type_str[type], 1, 12, f);
-		CHECK_FILE_ERROR("Failed to write file type");
-		size_read = fwrite((u8*)src, 1, resource_size[type], f);
-		CHECK_FILE_ERROR("Failed to write resource data");
-		FILE_OK(); // close and return size_read
-	} else {
-		FILE_ERROR("Unimplemented or invalid resource save type");
 	}
+	if (!written){
+		remove(temp_path);
+		FILE_ERROR("Failed to write file");
+	}
+	return 1;
 }
 
 int check_load_res(u8* dest, const char* search_path, const char* name, int type){
@@ -914,8 +922,8 @@ void cmd_save(struct ptc* p){
 	if (p->exec.error) return; // error condition already met, fail here
 
 	assert(LITTLE_ENDIAN); // relied on for TYPE_MEM
-	int size = check_save_res(info.data, p->res.search_path, info.name, info.type_id);
-	p->res.result = size != 0;
+	if (info.type_id == TYPE_PRG) info.data = &p->exec.prg;
+	p->res.result = check_save_res(info.data, p->res.search_path, info.name, info.type_id);
 }
 
 void cmd_chrinit(struct ptc* p){
-- 
2.43.0


From 21cf0435a5096375f1f43c1a70b871a1cfe92b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 07/82] fix: FILES crashed without a programs directory or on
 names without extension

It also leaked the directory handle and listed files that cannot be loaded.
---
 source/system.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/source/system.c b/source/system.c
index 9649cf1..211eee0 100644
--- a/source/system.c
+++ b/source/system.c
@@ -177,20 +177,28 @@ void cmd_files(struct ptc* p){
 	} else {
 		// FILES (all)
 		DIR* dir = opendir(p->res.search_path);
+		if (!dir){
+			ERROR(ERR_FILE_INTERAL);
+		}
 		for (struct dirent* d = readdir(dir); d != NULL; d = readdir(dir)){
-			filename[1] = strchr(d->d_name, '.') - d->d_name;
-			if (filename[1] > 8 || !filename[1]){
+			const char* ext = strchr(d->d_name, '.');
+			if (!ext || strcmp(ext, ".PTC")){
+				continue; // file is inaccessible, not a resource file
+			}
+			char name[MAX_RESOURCE_NAME_LENGTH+1] = {0};
+			if (ext - d->d_name > MAX_RESOURCE_NAME_LENGTH){
 				continue; // file is inaccessible, name is too big
 			}
-			for (int i = 0; i < filename[1]; ++i){
-				if (!is_name(filename[2 + i])){
-					continue; // skip due to invalid characters
-				}
+			memcpy(name, d->d_name, ext - d->d_name); // strip extension
+			if (!verify_resource_name(name)){
+				continue; // file is inaccessible, name is empty or has invalid characters
 			}
-			strncpy(filename + 2, d->d_name, strchr(d->d_name, '.') - d->d_name); // strip any extension
+			filename[1] = strlen(name);
+			strcpy(filename + 2, name);
 			con_puts(&p->console, filename);
 			con_newline(&p->console, true);
 		}
+		closedir(dir);
 	}
 }
 
-- 
2.43.0


From 7257ef010d9c5ecaf0b7acf953ff715c851adcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 08/82] fix: a damaged EDITOR.PTC overflowed the program buffer
 at startup

---
 source/interpreter/program.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/interpreter/program.c b/source/interpreter/program.c
index a176408..2dc780f 100644
--- a/source/interpreter/program.c
+++ b/source/interpreter/program.c
@@ -167,6 +167,12 @@ bool load_prg_internal(struct program* p, const char* filename, bool alloc){
 		return false;
 	}
 	
+	if (h.prg_size > MAX_SOURCE_SIZE){
+		fclose(f);
+		iprintf("Program file is too large!\n");
+		return false;
+	}
+
 	p->size = h.prg_size;
 	if (alloc){
 		p->data = malloc_log("prg_load", h.prg_size);
@@ -175,6 +181,7 @@ bool load_prg_internal(struct program* p, const char* filename, bool alloc){
 	if (r < h.prg_size || ferror(f)){
 		iprintf("Could not read file corrcetly!\n");
 		fclose(f);
+		p->size = 0; // data is incomplete
 		if (alloc){
 			free_log("prg_load", p->data);
 		}
-- 
2.43.0


From a0303d897f93c9b6163189b60f649caa0b4fddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 09/82] fix: EXEC used invalid names as file paths

---
 source/interpreter/runner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index b82c712..753b2cb 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -573,7 +573,8 @@ void cmd_exec(struct ptc* p){
 	filename_buf[str_len(filename)] = '\0';
 	
 	// Load program into memory and tokenize
-	int size = load_program(p, p->res.search_path, filename_buf);
+	int size = verify_resource_name(filename_buf) && !strchr(filename_buf, RESOURCE_SEPARATOR)
+		&& load_program(p, p->res.search_path, filename_buf);
 	if (!size){
 		// Failed to load file
 		p->res.result = 0;
-- 
2.43.0


From c67dac721cd0329ddc274ae6a089f8dcead80dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 10/82] fix: failed autoload ran the EDITOR program instead

---
 source/system.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/system.c b/source/system.c
index 211eee0..1651f89 100644
--- a/source/system.c
+++ b/source/system.c
@@ -448,9 +448,8 @@ int launch_system(void* launch_info){
 				break;
 				
 			case LAUNCH_AUTOLOAD: // auto load program
-				load_program(p, p->res.search_path, info->prg_filename);
 //				p->exec.prg.size = check_load_res((u8*)p->exec.prg.data, p->res.search_path, info->prg_filename, TYPE_PRG);
-				if (!p->exec.prg.size){
+				if (!load_program(p, p->res.search_path, info->prg_filename) || !p->exec.prg.size){
 					p->exec.error = ERR_FILE_LOAD_FAILED;
 					state = LAUNCH_PROMPT;
 				} else {
-- 
2.43.0


From e4fa095fa7916daf9dbc9560b359cf0de168e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 11/82] fix: RUN and EXEC kept return addresses of the previous
 program

---
 source/interpreter/runner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 753b2cb..f64ebb3 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -590,6 +590,7 @@ void cmd_exec(struct ptc* p){
 	p->exec.data_index = 0;
 	p->exec.data_offset = 0;
 	p->exec.argcount = 0;
+	p->calls.stack_i = 0; // return addresses are only valid in the old program
 //	p->exec.prg = prog;
 	p->res.result = 1;
 }
@@ -604,6 +605,7 @@ void cmd_run(struct ptc* p){
 	p->exec.data_index = 0;
 	p->exec.data_offset = 0;
 	p->exec.argcount = 0;
+	p->calls.stack_i = 0; // return addresses are only valid in the old program
 }
 
 // For now this is a direct map of internal error codes.
-- 
2.43.0


From a86af81bf1a48b5e9ba6c8e8058faa5eba36977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 12/82] fix: resource names without bank number always meant
 the upper screen

---
 source/subsystem/resources.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 50c8096..edc2242 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -747,6 +747,7 @@ void* get_resource_ptr(struct ptc* p, const char* resource_type){
 	int screen = 0;
 	if (res_type_index == '\0' || res_type_index == RESOURCE_SEPARATOR){
 		bank = 0;
+		screen = -1; // page is omitted as well
 	} else {
 		bank = res_type_index - '0';
 		char res_type_screen = resource_type[RESOURCE_TYPE_SCREEN_OFS];
-- 
2.43.0


From 72b653d00a69a9db12e3fbbb6c2ec190b8c53548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 13/82] fix: kana typed on the host keyboard reached the
 program as other characters

The key queue holds PTC wide characters, which are the kana code points
themselves; subtracting 12289 produced unrelated characters (INKEY$ even
indexed outside its table when the result was not a character).
---
 source/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/main.c b/source/main.c
index d3873e3..30358ef 100644
--- a/source/main.c
+++ b/source/main.c
@@ -255,7 +255,7 @@ int main(int argc, char** argv){
 					}
 				} else if (event.text.unicode >= 12289 && event.text.unicode <= 12540){
 					if (to_char(event.text.unicode) >= 0xa1){
-						set_inkey(&ptc->input, event.text.unicode - 12289);
+						set_inkey(&ptc->input, event.text.unicode);
 					}
 				}
 			}
-- 
2.43.0


From 3f47b3c567f214c4dd9203bc58c0e969678beeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 14/82] fix: auto-input characters were queued in a different
 form than typed ones

The bytes of the auto-input file were put into the key queue as they are
instead of as wide characters, so INPUT with several variables never saw
a comma; bytes above 127 became other characters and 0xff ended the input.
---
 source/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/main.c b/source/main.c
index 30358ef..ea138e7 100644
--- a/source/main.c
+++ b/source/main.c
@@ -261,13 +261,13 @@ int main(int argc, char** argv){
 			}
 		}
 		
-		char input;
+		int input;
 		if (inputs){
 			//read 128 units per frame
 			bool success = true;
 			while(success){
 				if ((input = getc(inputs)) != EOF){
-					success = set_inkey(&ptc->input, input);
+					success = set_inkey(&ptc->input, to_wide(input));
 					if (!success){
 						ungetc(input, inputs);
 					}
-- 
2.43.0


From 2c32efdb2c4cb5d8af4f205cb1c61a93f267521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 15/82] fix: touch stayed pressed when the pointer left the
 touch screen

With the pointer outside the lower screen neither set_touch nor press_key
ran, so TCHST, TCHTIME and the pressed on-screen key kept their last
values even after the mouse button was released.
---
 source/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/main.c b/source/main.c
index ea138e7..c17c928 100644
--- a/source/main.c
+++ b/source/main.c
@@ -293,15 +293,22 @@ int main(int argc, char** argv){
 		
 		sfVector2i pos = sfMouse_getPosition((sfWindow*)window);
 		sfVector2u window_size = sfRenderWindow_getSize(window);
+		bool on_panel = false;
 		if (pos.y >= (int)window_size.y / 2){
 			int tchx = SCREEN_WIDTH * pos.x / window_size.x;
 			int tchy = SCREEN_HEIGHT * pos.y / (window_size.y / 2) - SCREEN_HEIGHT;
 			if (tchx < SCREEN_WIDTH && tchx >= 0 && tchy < SCREEN_HEIGHT && tchy >= 0){
 	//			iprintf("%d,%d\n", tchx, tchy);
+				on_panel = true;
 				set_touch(&ptc->input, sfMouse_isButtonPressed(0), tchx, tchy);
 				press_key(ptc, sfMouse_isButtonPressed(0), tchx, tchy);
 			}
 		}
+		if (!on_panel){
+			// the pointer can only touch the lower screen
+			set_touch(&ptc->input, false, 0, 0);
+			press_key(ptc, false, 0, 0);
+		}
 
 		step_sprites(&ptc->sprites);
 		step_background(&ptc->background);
-- 
2.43.0


From b7c1493d54214a32728d3fd2fe4ce9f69e300726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 16/82] fix: icon page down key did not repeat, sliding off a
 key read outside the key table

The held key was looked up without the special case for the page down
button, so it counted as released after one frame, and a place without a
key was looked up as keys[-1].
---
 source/subsystem/panel.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index cfabab8..31be2e7 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -325,6 +325,15 @@ const char* key_map =
 "\124\124\124\124\xff\125\125\125\125\126\126\127\127\130\130\130\130\xff\131\131\133\133\133\134\134\134\135\135\135\136\136\136"
 ;
 
+// sprite ID of the key at the given location, -1 if there is none
+static int key_at(struct panel* p, int x, int y){
+	char c = key_map[x/8 + 32*(y/8)];
+	if (c == '\131' && p->iconpuse && y >= (SCREEN_HEIGHT - 12)){
+		c = '\132'; // icon page down button (the weird height means this had to be a special case)
+	}
+	return c == '\xff' ? -1 : c;
+}
+
 void press_key(struct ptc* ptc, bool t, int x, int y){
 	struct panel* p = &ptc->panel;
 	if (!t){
@@ -333,8 +342,8 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 		p->pressed_time = 0;
 		return; // no touch = no press
 	} else if (t && p->key_pressed){ // touch and hold
-		char c = key_map[x/8 + 32*(y/8)];
-		if (p->keys[(int)c].vars[0] != p->key_pressed){
+		int c = key_at(p, x, y);
+		if (c < 0 || p->keys[c].vars[0] != p->key_pressed){
 			p->key_pressed = 0;
 			p->id_pressed = -1;
 		} else {
@@ -344,13 +353,10 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 //		return;
 	} else {
 		//press keyboard keys (touching, no previous hold, no previous timer)
-		char c = key_map[x/8 + 32*(y/8)];
-		if (c == '\131' && p->iconpuse && y >= (SCREEN_HEIGHT - 12)){
-			c = '\132'; // icon page down button (the weird height means this had to be a special case)
-		}
-		if (c != '\xff'){
+		int c = key_at(p, x, y);
+		if (c >= 0){
 			p->id_pressed = c;
-			p->key_pressed = p->keys[(int)c].vars[0];
+			p->key_pressed = p->keys[c].vars[0];
 			p->pressed_time = 1;
 		} else {
 			// no key pressed
-- 
2.43.0


From cfaddc09bc999730d61c52f8949ee92bc0122abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 17/82] fix: INPUT/LINPUT lost typed characters, acted on a
 button or panel key several times or not at all, ignored REPLACE mode

---
 source/subsystem/console.c | 70 ++++++++++++++++++++++----------------
 source/subsystem/input.c   | 35 +++++++++++++++++++
 source/subsystem/input.h   |  9 +++++
 source/subsystem/panel.c   |  4 +++
 source/subsystem/panel.h   |  3 ++
 5 files changed, 91 insertions(+), 30 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 658bcb2..5e74959 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -205,37 +205,65 @@ u16* shared_input(struct ptc* p){
 
 	uint_fast16_t inkey;
 	uint_fast8_t keyboard;
+	int buttons;
 	u16* output = con->text[con->y]; // start of current line
 	u8* outcol = con->color[con->y];
 
 	uint_fast8_t out_index = 0;
 	uint_fast8_t out_index_max = 0;
 	int old_panel = p->panel.type;
+	// keys and buttons pressed before the prompt appeared do not act on it
+	u32 sample = 0;
+	u32 key_count = p->panel.key_count;
+	get_edit_buttons(&p->input, &sample);
 	p->console.cursor_visible = true;
 	// enable typing during INPUT/LINPUT if not already active
 	p->panel.type = PNL_KYA; // TODO:IMPL:MED Update panel fully on load
 	set_panel_bg(p, PNL_KYA);
 	do {
-		// wait for a frame to pass
-		int t = get_time(&p->time);
+		// wait for something to happen
+		// Buttons are checked first: everything typed before a button press is
+		// in the queue already when the press is seen, and acts before it.
+		buttons = get_edit_buttons(&p->input, &sample);
+		keyboard = 0;
+		if (key_count != p->panel.key_count){
+			key_count = p->panel.key_count;
+			keyboard = p->panel.last_key;
+		}
+		inkey = get_inkey(&p->input);
 		// This test_mode check isn't ideal, but it allows test
 		// cases to run without waiting for an update from another thread
-		inkey = get_inkey(&p->input);
-		keyboard = get_pressed_key(p);
-		while (!inkey && !con->test_mode && t == get_time(&p->time) && !check_interrupt(p)){
+		if (!inkey && !buttons && !keyboard && !con->test_mode){
 			// sleep for user input
 			struct timespec tspec = {.tv_nsec=FRAME_TENTH_NS};
 			thrd_sleep(&tspec, NULL);
 		}
+		for (; inkey && inkey != '\r'; inkey = get_inkey(&p->input)){
+			if (!(p->panel.cursor & PNL_INSERT) && out_index < out_index_max){ // REPLACE mode
+				outcol[out_index] = con->col;
+				output[out_index++] = inkey;
+			} else if (out_index_max < CONSOLE_WIDTH){ // INSERT mode
+				// Copy characters past insertion point forward
+				for (int i = out_index_max-1; i >= (int)out_index; --i){
+					outcol[i+1] = outcol[i];
+					output[i+1] = output[i];
+				}
+				outcol[out_index] = con->col;
+				output[out_index++] = inkey;
+				++out_index_max;
+			}
+			p->console.x = out_index;
+		}
+		if (inkey == '\r') break; // anything else belongs to the next line
 		// Check for special keys
 		// redraw on first frame of hold and first frame of release
 		// TODO:IMPL:LOW Pressing L+R inverts the selection again for the duration held.
 		// it should keep the shift state.
-		if (((p->input.button ^ p->input.old_button) & BUTTON_L) ||
-		    ((p->input.button ^ p->input.old_button) & BUTTON_R)){
+		if (buttons & (BUTTON_L | BUTTON_R)){
 			p->panel.shift ^= PNL_SHIFT;
 			refresh_panel(p);
-		} else if ((keyboard == 15 || check_pressed(&p->input, BUTTON_ID_Y))){
+		}
+		if (keyboard == 15 || (buttons & BUTTON_Y)){
 			// Copy characters back
 			if (out_index > 0){
 				for (int i = out_index-1; i < (int)out_index_max; ++i){
@@ -254,32 +282,14 @@ u16* shared_input(struct ptc* p){
 				}
 				output[--out_index_max] = 0;
 			}
-		} else if (inkey == '\r'){
-			// don't add this one
-		} else if (inkey && out_index_max < CONSOLE_WIDTH){
-			if ((p->panel.cursor & ~PNL_INSERT)){ // REPLACE mode
-				outcol[out_index] = con->col;
-				output[out_index++] = inkey;
-				if (out_index > out_index_max)
-					++out_index_max;
-			} else { // INSERT mode
-				// Copy characters past insertion point forward
-				for (int i = out_index_max-1; i >= (int)out_index; --i){
-					outcol[i+1] = outcol[i];
-					output[i+1] = output[i];
-				}
-				outcol[out_index] = con->col;
-				output[out_index++] = inkey;
-				++out_index_max;
-			}
-		} else if (check_pressed(&p->input, BUTTON_ID_LEFT)){
+		}
+		if (buttons & BUTTON_LEFT){
 			out_index -= out_index > 0;
-		} else if (check_pressed(&p->input, BUTTON_ID_RIGHT)){
+		} else if (buttons & BUTTON_RIGHT){
 			out_index += out_index < out_index_max;
 		}
 		p->console.x = out_index;
-	} while (!check_interrupt(p) && inkey != '\r'
-			&& !check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4));
+	} while (!check_interrupt(p) && !(buttons & BUTTON_A));
 	p->panel.type = old_panel;
 	p->console.cursor_visible = false;
 	return output;
diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index ae91cef..a73c8ab 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -24,10 +24,16 @@ void init_input(struct input* i){
 #endif
 	i->current_write = 0;
 	i->current_base = 0;
+	i->samples = 0;
 }
 
 void set_input(struct ptc* p, int b) {
 	struct input* i = &p->input;
+#ifdef PC
+	if (mtx_lock(&i->inkey_mtx) == thrd_error){
+		ABORT("set_input mutex lock failure!");
+	}
+#endif
 	i->old_button = i->button;
 	i->button = b;
 	
@@ -38,6 +44,12 @@ void set_input(struct ptc* p, int b) {
 			i->times[j].frame = 0;
 		}
 	}
+	i->samples++;
+#ifdef PC
+	if (mtx_unlock(&i->inkey_mtx) == thrd_error){
+		ABORT("set_input mutex unlock failure!");
+	}
+#endif
 	// check for SELECT break here
 	if (i->times[BUTTON_ID_SELECT].frame == 1){
 		p->break_request = true;
@@ -124,6 +136,29 @@ bool check_pressed(struct input* i, int id){
 	return check_repeat(i->times[id].frame, i->times[id].start, i->times[id].repeat);
 }
 
+int get_edit_buttons(struct input* i, u32* sample){
+	int b = 0;
+#ifdef PC
+	if (mtx_lock(&i->inkey_mtx) == thrd_error){
+		ABORT("get_edit_buttons mutex lock failure!");
+	}
+#endif
+	if (*sample != i->samples){
+		*sample = i->samples;
+		b |= check_pressed(i, BUTTON_ID_LEFT) << BUTTON_ID_LEFT;
+		b |= check_pressed(i, BUTTON_ID_RIGHT) << BUTTON_ID_RIGHT;
+		b |= check_pressed(i, BUTTON_ID_Y) << BUTTON_ID_Y;
+		b |= check_pressed_manual(i, BUTTON_ID_A, 15, 4) << BUTTON_ID_A;
+		b |= (i->button ^ i->old_button) & (BUTTON_L | BUTTON_R);
+	}
+#ifdef PC
+	if (mtx_unlock(&i->inkey_mtx) == thrd_error){
+		ABORT("get_edit_buttons mutex unlock failure!");
+	}
+#endif
+	return b;
+}
+
 void cmd_brepeat(struct ptc* p){
 	// BREPEAT id[,start,repeat]
 	// https://petitcomputer.fandom.com/wiki/BREPEAT_(Command)
diff --git a/source/subsystem/input.h b/source/subsystem/input.h
index 1b3802c..5e3ce87 100644
--- a/source/subsystem/input.h
+++ b/source/subsystem/input.h
@@ -64,6 +64,8 @@ struct input {
 		/// How long this button has been held for.
 		int frame;
 	} times[12];
+	/// Number of times the button state has been updated.
+	u32 samples;
 	
 	uint_fast16_t tchx, tchy, tchtime;
 	// Derived from tchx,tchy
@@ -104,6 +106,13 @@ static inline bool check_repeat(int time, int start, int repeat){
 bool check_pressed(struct input* i, int id);
 bool check_pressed_manual(struct input* i, int id, int start, int repeat);
 
+/// Button presses relevant to editing a line of text.
+/// Every update of the button state is only reported once.
+/// 
+/// @param sample Number of the last reported update
+/// @return Bits of the pressed buttons. L and R are also reported when released.
+int get_edit_buttons(struct input* i, u32* sample);
+
 void cmd_brepeat(struct ptc* p);
 void func_btrig(struct ptc* p);
 void func_button(struct ptc* p);
diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 31be2e7..306f784 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -123,6 +123,8 @@ void init_panel(struct ptc* p){
 	p->panel.keys_text = alloc_console();
 	p->panel.shift = 0;
 	p->panel.cursor = PNL_INSERT;
+	p->panel.last_key = 0;
+	p->panel.key_count = 0;
 	set_panel_bg(p, p->panel.type);
 	
 	set_function_key(p, 1, "S\5FILES");
@@ -376,6 +378,8 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 	bool refresh = false;
 	
 	if (pressed_key){
+		p->last_key = pressed_key;
+		p->key_count++;
 		if (pressed_key == 1){
 			ptc->break_request = true;
 		} else if (pressed_key == 47){
diff --git a/source/subsystem/panel.h b/source/subsystem/panel.h
index 505c067..48966f7 100644
--- a/source/subsystem/panel.h
+++ b/source/subsystem/panel.h
@@ -60,6 +60,9 @@ struct panel {
 	u8 id_pressed;
 	/// The time the key being pressed has been held, in frames.
 	int pressed_time;
+	/// The last key that acted (when touched, or repeated), and how many did so far.
+	u8 last_key;
+	u32 key_count;
 	
 	/// Value indicating the status of the SHIFT key and the caps lock key
 	/// of the virtual keyboard.
-- 
2.43.0


From 77094672835999449813a37f239ce6c777a1c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 18/82] fix: INPUT/LINPUT lost the last character of a full
 line, leaked wide strings, crashed when out of strings

---
 source/subsystem/console.c | 100 ++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 58 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 5e74959..056f80c 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -310,6 +310,38 @@ void con_reprompt(struct console* con, void* prompt_str){
 	con_prompt(con, prompt_str);
 }
 
+/// Stores characters of an entered line to a string variable
+static void assign_line(struct ptc* p, struct string** dest, const u16* text, int len){
+	struct string* s = get_new_str(&p->strs);
+	if (!s){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
+	if (*dest != NULL && is_dyn_str(*dest)){
+		(*dest)->uses--;
+	}
+	*dest = s;
+	
+	// If string defaulted to STRING_CHAR, promote it to STRING_WIDE as needed
+	// As long as MAX_STRLEN > CONSOLE_WIDTH / sizeof(u16), this is safe,
+	// even when using memory allocated for STRING_CHAR.
+	// If string defaulted to STRING_WIDE, it can stay that way, there's no difference.
+	// TODO:TEST:LOW Check that wide strings work here
+	for (int j = 0; j < len; ++j){
+		if (!is_char(text[j])){
+			s->type = STRING_WIDE;
+		}
+	}
+	s->uses = 1;
+	s->len = len;
+	for (int j = 0; j < len; ++j){
+		if (s->type == STRING_WIDE){
+			s->ptr.w[j] = text[j];
+		} else {
+			s->ptr.s[j] = to_char(text[j]);
+		}
+	}
+}
+
 void cmd_input(struct ptc* p){
 	struct console* con = &p->console;
 	// INPUT [prompt;]var[,var...]
@@ -358,18 +390,19 @@ void cmd_input(struct ptc* p){
 			con_reprompt(con, prompt_str);
 			continue;
 		}
-		u8 conversion_copy[CONSOLE_WIDTH];
+		u8 conversion_copy[CONSOLE_WIDTH+1];
 		int prev_i = 0;
 		int out_i = 0;
 		
 		for (int i = 0; i < len; ){
 			struct stack_entry* e = ARG(index+i);
-			u8 c = to_char(output[out_i]);
+			// the end of a full line ends the last entry
+			u8 c = out_i < CONSOLE_WIDTH ? to_char(output[out_i]) : '\0';
 			conversion_copy[out_i++] = c;
 			if (e->type == (VAR_NUMBER | VAR_VARIABLE)){
 				// validate first entry is numeric
 				if (is_number(c) || c == '.' || c == '-'){
-				} else if (c == ',' || c == '\0' || c == ' ' || out_i >= CONSOLE_WIDTH){
+				} else if (c == ',' || c == '\0' || c == ' '){
 					// convert from previous to out_i
 					if (out_i - prev_i - 1 == 0){
 						valid = false;
@@ -386,33 +419,9 @@ void cmd_input(struct ptc* p){
 					break;
 				}
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
-				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
-					struct string* s = get_new_str(&p->strs);
-					
-					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
-						(*(struct string**)e->value.ptr)->uses--;
-					}
-					(*(struct string**)e->value.ptr) = s;
-					
-					// TODO:TEST:LOW Check that wide strings work here
-					bool require_wide = false;
-					for (int j = prev_i; j < out_i; ++j){
-						if (!is_char(output[j])){
-							require_wide = true;
-							break;
-						}
-					}
-					
-					s->type = require_wide ? STRING_WIDE : STRING_CHAR;
-					s->uses = 1;
-					s->len = out_i - prev_i - 1;
-					for (int j = prev_i; j < out_i; ++j){
-						if (require_wide){
-							s->ptr.w[j - prev_i] = output[j];
-						} else {
-							s->ptr.s[j - prev_i] = conversion_copy[j];
-						}
-					}
+				if (c == ',' || c == '\0'){
+					assign_line(p, (struct string**)e->value.ptr, &output[prev_i], out_i - prev_i - 1);
+					if (p->exec.error) break;
 					prev_i = out_i;
 					++i;
 				}
@@ -453,34 +462,9 @@ void cmd_linput(struct ptc* p){
 	}
 
 	// Now store the result to a new string
-	struct string* s = get_new_str(&p->strs);
-	
-	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
-		(*(struct string**)e->value.ptr)->uses--;
-	}
-	(*(struct string**)e->value.ptr) = s;
-	
-	// If string defaulted to STRING_CHAR, promote it to STRING_WIDE as needed
-	// As long as MAX_STRLEN > CONSOLE_WIDTH / sizeof(u16), this is safe,
-	// even when using memory allocated for STRING_CHAR.
-	// If string defaulted to STRING_WIDE, it can stay that way, there's no difference.
-	s->uses = 1;
-	s->len = 0;
-	for (int j = 0; j < CONSOLE_WIDTH; ++j){
-		if (!output[j]) break; // null character == end of string
-		if (!is_char(output[j])){
-			s->type = STRING_WIDE;
-		}
-		s->len += 1;
-	}
-
-	if (s->type == STRING_WIDE){
-		memcpy(s->ptr.w, output, s->len * sizeof(u16));
-	} else {
-		for (int j = 0; j < (int)s->len; ++j){
-			s->ptr.s[j] = to_char(output[j]);
-		}
-	}
+	int len = 0;
+	while (len < CONSOLE_WIDTH && output[len]) ++len; // null character == end of string
+	assign_line(p, (struct string**)e->value.ptr, output, len);
 	con_newline(con, true); // from user entering the line successfully.
 }
 
-- 
2.43.0


From 650c942b5bbc9371523cf56d10b8db4efb54656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 19/82] fix: INPUT/LINPUT prompt reaching below the last screen
 row wrote outside the screen

---
 source/subsystem/console.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 056f80c..5452a8c 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -299,8 +299,10 @@ void con_prompt(struct console* con, void* prompt_str){
 	// Displays prompt string
 	if (prompt_str) // only display string if it exists
 		con_puts(con, prompt_str);
+	con_scroll(con); // the text so far may have filled the last line
 	con_put(con, to_wide('?'));
 	if (con->x) con_newline(con, true); // only newline if necessary for user to have full line of input
+	con_scroll(con);
 }
 
 void con_reprompt(struct console* con, void* prompt_str){
-- 
2.43.0


From 124a230c8c789db55344feac090f7a4f214a66d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 20/82] fix: timed SPOFS/SPSCALE/SPANGLE missed their target or
 duration, raced with the frame loop; a finished animation held up other
 sprites; out of range SPPAGE/SPCLR

---
 source/subsystem/sprites.c | 140 +++++++++++++++++++++++--------------
 source/subsystem/sprites.h |  19 ++++-
 2 files changed, 105 insertions(+), 54 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 931b0e3..2eb0392 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -9,6 +9,29 @@
 
 void init_sprites(struct sprites* s){
 	*s = (struct sprites){0};
+#ifdef PC
+	if (mtx_init(&s->mtx, mtx_plain) != thrd_success){
+		ABORT("Error creating sprites mutex");
+	}
+#endif
+}
+
+static void lock_sprites(struct sprites* s){
+	(void)s;
+#ifdef PC
+	if (mtx_lock(&s->mtx) == thrd_error){
+		ABORT("sprites mutex lock failure!");
+	}
+#endif
+}
+
+static void unlock_sprites(struct sprites* s){
+	(void)s;
+#ifdef PC
+	if (mtx_unlock(&s->mtx) == thrd_error){
+		ABORT("sprites mutex unlock failure!");
+	}
+#endif
 }
 
 struct sprite_info init_sprite_info(int id,int chr,int pal,bool horiz,bool vert,int prio,int w, int h){
@@ -17,11 +40,11 @@ struct sprite_info init_sprite_info(int id,int chr,int pal,bool horiz,bool vert,
 		id,chr,pal,w,h,prio,horiz,vert,
 		0,0,
 		{ // position
-			0,0,0,0,-1
+			0,0,0,0,-1,0,0
 		},{ // scale
-			INT_TO_FP(1),0,0
+			INT_TO_FP(1),0,-1,0
 		},{ // angle
-			0,0,0
+			0,0,-1,0
 		},{ // collision
 			0,0,0,0,INT_TO_FP(w),INT_TO_FP(h),false,0xff
 		},{ // animation
@@ -34,6 +57,7 @@ struct sprite_info init_sprite_info(int id,int chr,int pal,bool horiz,bool vert,
 
 void step_sprites(struct sprites* s){
 	// Note: Code adapted from PTC-EmkII Sprites.cpp (Sprites::update())
+	lock_sprites(s);
 	for (int p = 0; p < SCREEN_COUNT; ++p){
 		struct sprite_info* info = s->info[p]; //array of sprites
 		for (int i = 0; i < MAX_SPRITES; ++i){
@@ -41,16 +65,23 @@ void step_sprites(struct sprites* s){
 			if (!spr->active){ continue; } // only update live sprites
 			if (spr->scale.time >= 0){
 				spr->scale.s += spr->scale.ds;
+				// the steps are rounded, so the last one goes to the exact value
+				if (spr->scale.time == 0) spr->scale.s = spr->scale.end_s;
 				spr->scale.time--;
 			}
 			if (spr->angle.time >= 0){
 				// TODO:IMPL:MED interpolation direction?
 				spr->angle.a += spr->angle.da % INT_TO_FP(360);
+				if (spr->angle.time == 0) spr->angle.a = spr->angle.end_a;
 				spr->angle.time--;
 			}
 			if (spr->pos.time >= 0){
 				spr->pos.x += spr->pos.dx;
 				spr->pos.y += spr->pos.dy;
+				if (spr->pos.time == 0){
+					spr->pos.x = spr->pos.end_x;
+					spr->pos.y = spr->pos.end_y;
+				}
 				spr->pos.time--;
 			}
 			// TODO:PERF:NONE Check if this is slow.
@@ -70,7 +101,7 @@ void step_sprites(struct sprites* s){
 						if (!spr->anim.loop_forever && spr->anim.loop == 0){ //all loops complete
 							spr->anim.current_chr -= chr_step;
 							//no more animation; frame remains last frame
-							break;
+							continue;
 						}
 						spr->anim.current_chr = spr->chr;
 					}
@@ -78,6 +109,7 @@ void step_sprites(struct sprites* s){
 			}
 		}
 	}
+	unlock_sprites(s);
 }
 
 
@@ -197,15 +229,14 @@ int get_sprite_chr(struct sprite_info* s){
 }
 
 void cmd_sppage(struct ptc* p){
-	int page = STACK_INT(0);
-	
-	p->sprites.page = page;
+	STACK_INT_RANGE(0,0,1,p->sprites.page);
 }
 
 void cmd_spclr(struct ptc* p){
 	if (p->stack.stack_i == 1){
 		// SPCLR id
-		int index = STACK_INT(0);
+		int index;
+		STACK_INT_RANGE(0,0,99,index);
 		// disable sprite: no values matter if inactive
 		p->sprites.info[p->sprites.page][index].active = false;
 	} else {
@@ -236,7 +267,9 @@ void cmd_spset(struct ptc* p){
 		height = STACK_INT(7);
 	}
 	// TODO:TEST:MED Validate that this initialization is correct
+	lock_sprites(&p->sprites);
 	p->sprites.info[p->sprites.page][id] = init_sprite_info(id,chr,pal,horiz_flip,vert_flip,prio,width,height);
+	unlock_sprites(&p->sprites);
 }
 
 void cmd_spofs(struct ptc* p){
@@ -252,13 +285,17 @@ void cmd_spofs(struct ptc* p){
 
 	if (p->stack.stack_i == 3){
 		// spofs id,x,y
+		lock_sprites(&p->sprites);
 		s->pos.x = x;
 		s->pos.y = y;
 		s->pos.time = -1;
 	} else {
 		STACK_INT_MIN(3,0,time);
 //		iprintf("x=%d y=%d t=%d\n", x, y, time);
+		lock_sprites(&p->sprites);
 		if (time){
+			s->pos.end_x = x;
+			s->pos.end_y = y;
 			s->pos.dx = (x - s->pos.x) / time;
 			s->pos.dy = (y - s->pos.y) / time;
 //			iprintf("dx=%d dy=%d\n", s->pos.dx, s->pos.dy);
@@ -269,6 +306,7 @@ void cmd_spofs(struct ptc* p){
 			s->pos.time = -1;
 		}
 	}
+	unlock_sprites(&p->sprites);
 }
 
 void cmd_spsetv(struct ptc* p){
@@ -380,7 +418,7 @@ void cmd_spscale(struct ptc* p){
 	int id, scale, time;
 	STACK_INT_RANGE(0,0,31,id);
 	STACK_INT_RANGE(1,0,200,scale);
-	time = p->stack.stack_i == 3 ? STACK_NUM(2) : 0;
+	time = p->stack.stack_i == 3 ? STACK_INT(2) : 0;
 	if (time < 0){
 		ERROR(ERR_OUT_OF_RANGE);
 	}
@@ -388,14 +426,15 @@ void cmd_spscale(struct ptc* p){
 	if (!s->active){
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 	}
-	if (p->stack.stack_i == 2){
-		s->scale.s = INT_TO_FP(scale)/100;
-		s->scale.time = -1;
+	lock_sprites(&p->sprites);
+	if (time){
+		s->scale.end_s = INT_TO_FP(scale)/100;
+		s->scale.ds = (s->scale.end_s - s->scale.s) / time;
 	} else {
-		STACK_INT_MIN(2,0,time);
-		s->scale.ds = ((INT_TO_FP(scale)/100) - s->scale.s) / time;
-		s->scale.time = time ? time : -1;
+		s->scale.s = INT_TO_FP(scale)/100;
 	}
+	s->scale.time = time - 1;
+	unlock_sprites(&p->sprites);
 }
 
 void func_sphit(struct ptc* p){
@@ -465,35 +504,31 @@ void cmd_spangle(struct ptc* p){
 	angle = (STACK_INT(1) % 360);
 //	if (angle < 0) angle += 360;
 	
-	if (p->stack.stack_i == 2){
-		s->angle.a = INT_TO_FP(angle);
-		s->angle.time = -1;
-	} else {
-		int dir = 1;
-		int time;
+	int dir = 1;
+	int time = 0;
+	if (p->stack.stack_i >= 3){
 		STACK_INT_MIN(2,0,time);
-		if (p->stack.stack_i == 4){
-			dir = STACK_INT(3);
-			if (dir != 1 && dir != -1){
-				ERROR(ERR_OUT_OF_RANGE);
-			}
-		}
-		
-		struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
-//		s->angle.a = ;
-		if (time){
-			if (dir < 0){
-				// 45 -> 90 step 45/time
-				s->angle.da = (INT_TO_FP(angle) - s->angle.a) / time;
-			} else {
-				// 45 -> 90 step 315/time
-				s->angle.da = (s->angle.a - INT_TO_FP(angle)) / time;
-			}
-		} else {
-			s->angle.a = INT_TO_FP(angle);
+	}
+	if (p->stack.stack_i == 4){
+		dir = STACK_INT(3);
+		if (dir != 1 && dir != -1){
+			ERROR(ERR_OUT_OF_RANGE);
 		}
-		s->angle.time = time ? time : -1;
 	}
+	
+	lock_sprites(&p->sprites);
+	if (time){
+		// Turn clockwise or counterclockwise until the angle is reached
+		fixp turn = (INT_TO_FP(angle) - s->angle.a) % INT_TO_FP(360);
+		if (dir > 0 && turn < 0) turn += INT_TO_FP(360);
+		if (dir < 0 && turn > 0) turn -= INT_TO_FP(360);
+		s->angle.da = turn / time;
+		s->angle.end_a = INT_TO_FP(angle);
+	} else {
+		s->angle.a = INT_TO_FP(angle);
+	}
+	s->angle.time = time - 1;
+	unlock_sprites(&p->sprites);
 }
 
 void cmd_spchr(struct ptc* p){
@@ -540,6 +575,7 @@ void cmd_spread(struct ptc* p){
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	// TODO:TEST:LOW Test ranges of values for correctness
 	// TODO:TEST:LOW Test interpolation values
+	lock_sprites(&p->sprites);
 	if (p->stack.stack_i >= 2){
 		fixp* x = (fixp*)ARG(1)->value.ptr;
 		*x = INT_TO_FP(FP_TO_INT(s->pos.x));
@@ -558,8 +594,9 @@ void cmd_spread(struct ptc* p){
 	}
 	if (p->stack.stack_i == 6){
 		fixp* c = (fixp*)ARG(5)->value.ptr;
-		*c = s->chr;
+		*c = INT_TO_FP(s->chr);
 	}
+	unlock_sprites(&p->sprites);
 }
 
 void cmd_spanim(struct ptc* p){
@@ -570,21 +607,20 @@ void cmd_spanim(struct ptc* p){
 	STACK_INT_MIN(1,0,chrs);
 	STACK_INT_MIN(2,0,time);
 	
+	int loop = 0; // forever
+	if (p->stack.stack_i == 4){
+		STACK_INT_MIN(3,0,loop);
+	}
+	
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
+	lock_sprites(&p->sprites);
 	s->anim.chrs = chrs;
 	s->anim.frames_per_chr = time;
 	s->anim.current_frame = 0;
 	s->anim.current_chr = s->chr;
-	
-	if (p->stack.stack_i == 3){
-		s->anim.loop = 0;
-		s->anim.loop_forever = true;
-	} else {
-		int loop;
-		STACK_INT_MIN(3,0,loop);
-		s->anim.loop = loop;
-		s->anim.loop_forever = loop == 0;
-	}
+	s->anim.loop = loop;
+	s->anim.loop_forever = loop == 0;
+	unlock_sprites(&p->sprites);
 }
 
 void sys_sphitno(struct ptc* p){
diff --git a/source/subsystem/sprites.h b/source/subsystem/sprites.h
index a0975ef..844e82b 100644
--- a/source/subsystem/sprites.h
+++ b/source/subsystem/sprites.h
@@ -7,6 +7,10 @@
 #include "common.h"
 #include "resources.h"
 
+#ifdef PC
+#include <threads.h>
+#endif
+
 #define MAX_SPRITES 100
 
 /// Sprite management struct.
@@ -54,6 +58,9 @@ struct sprites {
 			/// Remaining time to move sprite (frames)
 			/// If -1, sprite is done moving.
 			int time;
+			/// Position at the end of the movement
+			fixp end_x;
+			fixp end_y;
 		} pos;
 		
 		/// Struct for sprite scaling.
@@ -63,8 +70,10 @@ struct sprites {
 			/// Change in scale over time (step/frame)
 			fixp ds;
 			/// Remaining time to scale sprite (frames)
-			/// If 0, sprite is done resizing.
+			/// If -1, sprite is done resizing.
 			int time;
+			/// Scale at the end of resizing
+			fixp end_s;
 		} scale;
 		
 		/// Struct for sprite rotation
@@ -74,8 +83,10 @@ struct sprites {
 			/// Change in angle (degrees/frame)
 			fixp da;
 			/// Remaining time rotate sprite (frames)
-			/// If 0, sprite is done rotating.
+			/// If -1, sprite is done rotating.
 			int time;
+			/// Angle at the end of the rotation
+			fixp end_a;
 		} angle;
 		
 		/// Struct for sprite collision detection.
@@ -132,6 +143,10 @@ struct sprites {
 	/// @note I don't know what this does.
 	/// @warning Unimplemented
 	fixp sphitt;
+#ifdef PC
+	/// Sprites are stepped by the main thread while the program changes them.
+	mtx_t mtx;
+#endif
 };
 
 /// Initializes sprites struct data.
-- 
2.43.0


From 85ef26b2a678fe102de11e78d8a12924dcbe1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 21/82] fix: SPSET with size 0 crashed, SPCHR had no effect
 after an animation

---
 source/subsystem/sprites.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 2eb0392..3c40687 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -247,6 +247,10 @@ void cmd_spclr(struct ptc* p){
 	}
 }
 
+static bool is_sprite_size(int size){
+	return size == 8 || size == 16 || size == 32 || size == 64;
+}
+
 void cmd_spset(struct ptc* p){
 	int id;
 	int chr;
@@ -262,9 +266,11 @@ void cmd_spset(struct ptc* p){
 	int height = 16;
 	if (p->stack.stack_i == 8){
 		// spset id,chr,pal,h,v,prio,w,h
-		// TODO:ERR:MED bounds checking
 		width = STACK_INT(6);
 		height = STACK_INT(7);
+		if (!is_sprite_size(width) || !is_sprite_size(height)){
+			ERROR(ERR_OUT_OF_RANGE);
+		}
 	}
 	// TODO:TEST:MED Validate that this initialization is correct
 	lock_sprites(&p->sprites);
@@ -531,6 +537,17 @@ void cmd_spangle(struct ptc* p){
 	unlock_sprites(&p->sprites);
 }
 
+static void set_sprite_chr(struct ptc* p, struct sprite_info* s, int chr){
+	lock_sprites(&p->sprites);
+	if (s->anim.loop_forever || s->anim.loop > 0){
+		s->anim.current_chr += chr - s->chr; // continue the animation from the new character
+	} else {
+		s->anim.current_chr = -1; // do not show the last character of an old animation
+	}
+	s->chr = chr;
+	unlock_sprites(&p->sprites);
+}
+
 void cmd_spchr(struct ptc* p){
 	int id, chr;
 	STACK_INT_RANGE(0,0,99,id);
@@ -538,7 +555,7 @@ void cmd_spchr(struct ptc* p){
 	STACK_INT_RANGE(1,0,(p->sprites.page ? 117 : 511),chr);
 	if (p->stack.stack_i == 2){
 		// SPCHR id, chr
-		s->chr = chr;
+		set_sprite_chr(p, s, chr);
 	} else {
 		// SPCHR id, chr, pal, h, v, prio
 		int pal, prio;
@@ -548,7 +565,7 @@ void cmd_spchr(struct ptc* p){
 		STACK_INT_RANGE(4,0,1,v);
 		STACK_INT_RANGE(5,0,3,prio);
 		
-		s->chr = chr;
+		set_sprite_chr(p, s, chr);
 		s->pal = pal;
 		s->flip_x = h;
 		s->flip_y = v;
-- 
2.43.0


From cad93ebac895b521dad0768263c0a3a93a87dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 22/82] fix: timed BGOFS missed its target by rounding and
 raced with the frame loop

---
 source/subsystem/background.c | 56 +++++++++++++++++++++++++++--------
 source/subsystem/background.h | 11 +++++++
 2 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index a023580..9b5cf3f 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -18,6 +18,29 @@ void init_background(struct background* b){
 		b->clip[i].x2 = SCREEN_WIDTH - 1;
 		b->clip[i].y2 = SCREEN_HEIGHT - 1;
 	}
+#ifdef PC
+	if (mtx_init(&b->mtx, mtx_plain) != thrd_success){
+		ABORT("Error creating background mutex");
+	}
+#endif
+}
+
+static void lock_background(struct background* b){
+	(void)b;
+#ifdef PC
+	if (mtx_lock(&b->mtx) == thrd_error){
+		ABORT("background mutex lock failure!");
+	}
+#endif
+}
+
+static void unlock_background(struct background* b){
+	(void)b;
+#ifdef PC
+	if (mtx_unlock(&b->mtx) == thrd_error){
+		ABORT("background mutex unlock failure!");
+	}
+#endif
 }
 
 void free_background(struct background* b){
@@ -25,6 +48,7 @@ void free_background(struct background* b){
 }
 
 void step_background(struct background* b){
+	lock_background(b);
 	for (int p = 0; p < SCREEN_COUNT; ++p){
 		for (int l = 0; l < BG_LAYERS; ++l){
 			struct bg_offset* bg = &b->ofs[p][l];
@@ -32,9 +56,15 @@ void step_background(struct background* b){
 				bg->x += bg->step_x;
 				bg->y += bg->step_y;
 				bg->time--;
+				// the steps are rounded, so the last one goes to the exact offset
+				if (bg->time == 0){
+					bg->x = bg->end_x;
+					bg->y = bg->end_y;
+				}
 			}
 		}
 	}
+	unlock_background(b);
 }
 
 u16* bg_page(struct ptc* p, u8 page, u8 layer){
@@ -172,28 +202,28 @@ void cmd_bgfill(struct ptc* p){
 }
 
 void cmd_bgofs(struct ptc* p){
-	int layer, time;
+	int layer, time = 0;
 	fixp x, y;
 	STACK_INT_RANGE(0,0,1,layer);
 	x = STACK_NUM(1);
 	y = STACK_NUM(2);
+	if (p->stack.stack_i == 4){
+		STACK_INT_MIN(3,0,time);
+	}
 	
 	struct bg_offset* b = &p->background.ofs[p->background.page][layer];
-	if (p->stack.stack_i == 3){
+	lock_background(&p->background);
+	if (time){
+		b->step_x = (x - b->x) / time;
+		b->step_y = (y - b->y) / time;
+		b->end_x = x;
+		b->end_y = y;
+	} else {
 		b->x = x;
 		b->y = y;
-		b->time = 0;
-	} else {
-		STACK_INT_MIN(3,0,time);
-		if (time){
-			b->step_x = (x - b->x) / time;
-			b->step_y = (y - b->y) / time;
-		} else {
-			b->x = x;
-			b->y = y;
-		}
-		b->time = time;
 	}
+	b->time = time;
+	unlock_background(&p->background);
 }
 
 void cmd_bgclip(struct ptc* p){
diff --git a/source/subsystem/background.h b/source/subsystem/background.h
index 43eac72..8119a7f 100644
--- a/source/subsystem/background.h
+++ b/source/subsystem/background.h
@@ -8,6 +8,9 @@
 #include "resources.h"
 
 #include <assert.h>
+#ifdef PC
+#include <threads.h>
+#endif
 
 struct ptc;
 
@@ -33,6 +36,10 @@ struct background {
 		fixp step_y;
 		
 		fixp time;
+		
+		/// Offset at the end of the interpolation
+		fixp end_x;
+		fixp end_y;
 	} ofs[SCREEN_COUNT][BG_LAYERS]; // index order: ofs[page][layer]
 	
 	/// BG clipping info.
@@ -45,6 +52,10 @@ struct background {
 		uint_fast8_t y2;
 	} clip[SCREEN_COUNT];
 	
+#ifdef PC
+	/// Offsets are stepped by the main thread while the program changes them.
+	mtx_t mtx;
+#endif
 };
 
 /// Allocates memory for a background object
-- 
2.43.0


From 90a3c8c7525554940c7d2d9f7ebcdfb8877f7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 23/82] fix: DIM reports an error only when it fails, and
 reports full array memory

---
 source/interpreter/runner.c | 10 ++++++----
 source/interpreter/vars.c   |  8 +++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index f64ebb3..26a7822 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -403,8 +403,9 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					if (!get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b)){
+						r->error = p->vars.error;
+					}
 				} else {
 					char* x = (char*)&r->code.data[r->index];
 					iprintf("%.*s", data, x);
@@ -413,8 +414,9 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					enum types t = x[(u8)data-1] == '$' ? VAR_STRING : VAR_NUMBER;
 					u32 len = t & VAR_NUMBER ? data : data-1;
 					
-					get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					if (!get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b)){
+						r->error = p->vars.error;
+					}
 				}
 				
 				iprintf(" dim=%d,%d", (int)a, (int)b);
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 4d082ce..6b43360 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -92,6 +92,12 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 	// Or if value was CLEARed, so it is OK to re-generate array
 	if (var->type == VAR_EMPTY
 		|| (v->clear_values && var->value.ptr == NULL)){
+		// get memory first: the name is only taken if this succeeds
+		void* arr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		if (!arr){
+			v->error = ERR_OUT_OF_MEMORY;
+			return NULL;
+		}
 		++v->var_count;
 		// set var type
 		var->type = type;
@@ -105,7 +111,7 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 		}
 		
 		// set var ptr
-		var->value.ptr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		var->value.ptr = arr;
 		return var;
 	} else {
 		// array already exists!
-- 
2.43.0


From 2de3d8ff1f278db31af6a06c28859dd826eb9382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 24/82] fix: RETURN with only FOR loops active reports RETURN
 without GOSUB

---
 source/interpreter/flow.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 7c05afa..678c0a6 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -268,14 +268,14 @@ void cmd_return(struct ptc* p){
 		return;
 	}
 	while(true){
-		if (p->calls.entry[--stack_i].type == CALL_GOSUB){
-			break;
-		}
-		if (stack_i < 0){
+		if (stack_i <= 0){
 			// did not find GOSUB anywhere in stack
 			p->exec.error = ERR_RETURN_WITHOUT_GOSUB;
 			return;
 		}
+		if (p->calls.entry[--stack_i].type == CALL_GOSUB){
+			break;
+		}
 	}
 	// Here, stack_i points to RETURN.
 	p->exec.index = p->calls.entry[stack_i].address;
-- 
2.43.0


From 063245970367484eaf9e1757b00755e6bf488c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 25/82] fix: READ past the last DATA item and RESTORE to a
 missing label report errors

---
 source/interpreter/data.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index a384d64..d278f20 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -97,6 +97,10 @@ void cmd_read(struct ptc* p){
 	iprintf("READ from: ");
 	// Iterate over variables on stack
 	for (int i = 0; i < p->stack.stack_i; ++i){
+		if (p->exec.data_index == BC_SCAN_NOT_FOUND){
+			ERROR(ERR_OUT_OF_DATA); // previous item was the last one
+		}
+		data_block = (u8*)&p->exec.code.data[p->exec.data_index];
 		block_size = data_block[1];
 		iprintf("src=%d size=%d", (int)p->exec.data_index, block_size);
 		iprintf(" data=\"%.*s\"", block_size, &data_block[DATA_DATA_OFS + p->exec.data_offset]);
@@ -115,7 +119,6 @@ void cmd_read(struct ptc* p){
 		if (p->exec.data_offset >= block_size){
 			// search for next data block
 			find_data(p);
-			data_block = (u8*)&p->exec.code.data[p->exec.data_index];
 		}
 	}
 	iprintf("\n");
@@ -124,6 +127,9 @@ void cmd_read(struct ptc* p){
 void cmd_restore(struct ptc* p){
 	void* label = value_str(ARG(0));
 	idx index = search_label(p, label); // sets error on failure
+	if (p->exec.error){
+		return;
+	}
 	p->exec.data_index = bc_scan(p->exec.code, index, BC_DATA);
 	p->exec.data_offset = 0;
 //	iprintf("Data at %d: %.*s", index, p->exec.code.data[index+1], &p->exec.code.data[index+2]);
-- 
2.43.0


From 48ffdf3dc230f7e8de11b770ee3e817cac82dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 26/82] fix: a label string that no label can match is reported
 as not found

---
 source/interpreter/label.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index 6580785..fe662db 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -106,24 +106,26 @@ idx search_label(struct ptc* p, void* label){
 	// Labels must always be located at the beginning of a line.
 	idx index = 0;
 
-	u8 buf[MAX_LABEL_SIZE+1]; // +1 to include the @ symbol in cases of strings
+	u8 buf[MAX_STRLEN+1] = {0}; // includes the @ symbol in cases of strings
 	char* buf_ptr = (char*)buf;
 	int len = str_len(label);
-	if (*(char*)label == BC_LABEL || *(char*)label == BC_LABEL_STRING){
-		assert(len <= 16);
-		str_char_copy(label, buf);
-	} else { // assume regular string
-		assert(len <= 17);
-		str_char_copy(label, buf);
+	str_char_copy(label, buf);
+	if (*(char*)label != BC_LABEL && *(char*)label != BC_LABEL_STRING && len){
+		// assume regular string
 		++buf_ptr; // pointer past '@'
 		--len; // remove '@'
 	}
+	if (len == 0 || len > MAX_LABEL_SIZE){
+		// no label can have this name
+		p->exec.error = ERR_LABEL_NOT_FOUND;
+		return p->exec.code.size;
+	}
 	assert(len <= 16);
 	iprintf("[find=%s, %d]\n", buf_ptr, len);
 	index = label_index(&p->exec.code.labels, buf_ptr, len);
 	if (index == LABEL_NOT_FOUND){
 		p->exec.error = ERR_LABEL_NOT_FOUND;
-		memcpy(p->exec.error_info, buf, sizeof(buf)); // print label not found
+		memcpy(p->exec.error_info, buf, MAX_LABEL_SIZE+2); // print label not found
 		return p->exec.code.size; // error'd anyways, skip to end
 	}
 	return index;
-- 
2.43.0


From 9e27175f4ae0c2a21a306ea2da82aba9b6910bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 27/82] fix: a failed line's message overran its buffer; a
 prompt that was left ran an old REM command

---
 source/interpreter/tokens.c |  2 +-
 source/system.c             | 24 +++++++++++++-----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5b6a3f5..7e51d02 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -284,7 +284,7 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			int line_view = state.cursor - old_cursor;
 			line_view = line_view > 31 ? 31 : line_view;
 			memcpy(state.system->exec.error_info, &state.source->data[old_cursor], line_view);
-			state.system->exec.error_info[line_view+1] = '\0';
+			state.system->exec.error_info[line_view] = '\0';
 		}
 		iprintf("tokenize error: %s\n", error_messages[error]);
 	}
diff --git a/source/system.c b/source/system.c
index 1651f89..d70569c 100644
--- a/source/system.c
+++ b/source/system.c
@@ -330,7 +330,8 @@ int token_and_run(struct ptc* p, struct program* prg, struct bytecode* bc, int t
 
 // this is practically the main function, barring some platform-specific intialization
 int launch_system(void* launch_info){
-	u8 err_msg[CONSOLE_WIDTH*2+2] = {STRING_INLINE_CHAR}; // 2 lines + string metadata (type + length)
+	// string metadata (type + length) + message + error info (e.g. a line of source code)
+	u8 err_msg[CONSOLE_WIDTH*2+2+sizeof(((struct runner*)0)->error_info)] = {STRING_INLINE_CHAR};
 	struct launch_info* info = (struct launch_info*)launch_info;
 	struct ptc* p = info->p;
 	
@@ -387,16 +388,6 @@ int launch_system(void* launch_info){
 				{
 				run(prompt_bc, p); // get prompt
 				
-				void* cmd = get_var(&p->vars, "CODE", 4, VAR_STRING)->value.ptr;
-				if (str_comp(cmd, "S\011REM BENCH")){
-					state = LAUNCH_DEBUG;
-					debug = LAUNCH_DEBUG_BENCH;
-					break;
-				} else if (str_comp(cmd, "S\11REM LABEL")){
-					state = LAUNCH_DEBUG;
-					debug = LAUNCH_DEBUG_LABEL;
-					break;
-				}
 				// check status
 				if (p->exec.error == ERR_BUTTON_SIGNAL){
 					int sig = p->exec.error_info[0];
@@ -412,6 +403,17 @@ int launch_system(void* launch_info){
 					break;
 				}
 				
+				void* cmd = get_var(&p->vars, "CODE", 4, VAR_STRING)->value.ptr;
+				if (str_comp(cmd, "S\011REM BENCH")){
+					state = LAUNCH_DEBUG;
+					debug = LAUNCH_DEBUG_BENCH;
+					break;
+				} else if (str_comp(cmd, "S\11REM LABEL")){
+					state = LAUNCH_DEBUG;
+					debug = LAUNCH_DEBUG_LABEL;
+					break;
+				}
+				
 				// execute single line
 				// create small program
 				u8 direct_cmd[32+1] = {0};
-- 
2.43.0


From d4c290c87bd8abe28833ba20052fb7dfda6b8e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 28/82] fix: strings that only an expression or an overwritten
 variable used are released

---
 source/interpreter/data.c      | 10 ++++++----
 source/interpreter/flow.c      |  2 +-
 source/interpreter/operators.c | 21 ++++++++++++++-------
 source/interpreter/runner.c    | 11 ++++++++---
 source/interpreter/stack.h     | 17 +++++++++++++++++
 source/interpreter/strs.h      | 10 ++++++++++
 source/interpreter/vars.h      |  2 ++
 source/subsystem/background.c  |  6 ++++--
 source/subsystem/console.c     | 22 ++++++++++++----------
 source/subsystem/resources.c   |  3 +--
 10 files changed, 75 insertions(+), 29 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index d278f20..82a9b5a 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -16,8 +16,10 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 	if (dest->type == (VAR_VARIABLE | VAR_STRING)){
 		// Create new string
 		struct string* s = get_new_str(&p->strs);
-		// Remove a use if variable had a string aleady
-		value_str(dest);
+		if (!s){
+			p->exec.error = ERR_OUT_OF_MEMORY;
+			return READ_ONE_ERR;
+		}
 		
 		// create destination and copy characters
 		for (; i < len && src[i] != BC_DATA_DELIM; ++i){
@@ -29,8 +31,7 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		s->len = i - start;
 		
 		// Assign new string to variable
-		(*(struct string**)dest->value.ptr) = s;
-		s->uses = 1;
+		str_assign(dest->value.ptr, s);
 	} else if (dest->type == (VAR_VARIABLE | VAR_NUMBER)){
 		u8 conversion[16] = {0}; // this buffer size is very arbitrary
 		// skip leading spaces, but only for numbers
@@ -108,6 +109,7 @@ void cmd_read(struct ptc* p){
 		
 		int read = read_one_u8(p, data_src, block_size - p->exec.data_offset, ARG(i));
 		if (read == READ_ONE_ERR){
+			if (p->exec.error) return;
 			ERROR(ERR_READ_FAILURE);
 		}
 		p->exec.data_offset += read;
diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 678c0a6..7511779 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -229,7 +229,7 @@ void cmd_goto_gosub(struct ptc* p, bool push_return){
 		if (p->stack.entry[label_i+1].type & STACK_OP){
 			ERROR(ERR_SYNTAX); // label is missing from this slot
 		}
-		label = p->stack.entry[label_i+1].value.ptr;
+		label = VALUE_STR(ARG(label_i+1));
 	} else {
 		label = value_str(e); //value_str
 	}
diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 38d9e0c..b2d78d3 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -33,13 +33,16 @@ void op_add(struct ptc* p){
 		struct string* z = get_new_str(&p->strs);
 		struct string* x = value_str(a);
 		struct string* y = value_str(b);
-		z->uses = 1;
+		if (!z){
+			ERROR(ERR_OUT_OF_MEMORY);
+		}
 		
 		if (str_len(x) + str_len(y) > MAX_STRLEN){
 			ERROR(ERR_STRING_TOO_LONG);
 		}
 		
 		str_concat(x, y, z);
+		z->uses = 1;
 		
 		stack_push(s, (struct stack_entry){VAR_STRING, {.ptr = z}});
 	}
@@ -79,19 +82,23 @@ void op_mult(struct ptc* p){
 		struct string* y = get_new_str(&p->strs);
 		struct string* x = value_str(a);
 		
-		y->uses = 1;
+		if (!y){
+			ERROR(ERR_OUT_OF_MEMORY);
+		}
 		y->len = 0; // start empty
-		if (count * str_len(x) > MAX_STRLEN){
+		if (str_len(x) && count > MAX_STRLEN / (int)str_len(x)){
 			p->exec.error = ERR_STRING_TOO_LONG;
 			return;
 		}
+		y->uses = 1;
 		
-		for (int i = 0; i < count; ++i){
+		for (int i = 0; i < count && str_len(x); ++i){
 			str_concat(y, x, y);
 		}
 		
 		stack_push(s, (struct stack_entry){VAR_STRING, {.ptr = y}});
 	} else {
+		s->stack_i += 2; // neither value was used
 		p->exec.error = ERR_OP_INVALID_TYPES;
 	}
 }
@@ -151,6 +158,9 @@ void op_assign(struct ptc* p){
 		assert(*dest); // must contain a valid string already
 		// char dest_old_type = (*dest)->type;
 		
+		if ((src->type == BC_STRING || src == &p->res.mem_str) && !new_alloc){
+			ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
+		}
 		if (is_dyn_str(*dest)){
 			// dest is dynamic: we replace it here, so reduce uses count
 			(*dest)->uses--;
@@ -161,9 +171,6 @@ void op_assign(struct ptc* p){
 			*dest = src;
 			(*dest)->uses++;
 		} else if (src->type == BC_STRING){
-			if (!new_alloc) {
-				ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
-			}
 			str_copy(src, new_alloc);
 			++new_alloc->uses;
 			*dest = new_alloc;
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 26a7822..cf79d9c 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -38,7 +38,7 @@ typedef void(*ptc_call)(struct ptc*);
 
 void ptc_stub(struct ptc* p){
 	// Stub function consumes all arguments and does nothing
-	p->stack.stack_i = 0;
+	stack_clear(&p->stack, &p->strs);
 }
 
 void ptc_func_stub(struct ptc* p){
@@ -180,9 +180,14 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	r->data_index = 0;
 	r->data_offset = 0;
 	r->argcount = 0; // may be left over from an interrupted execution
-	p->stack.stack_i = 0;
+	stack_clear(&p->stack, &p->strs); // may be left over from an interrupted execution
 
 	while (r->index < r->code.size && !check_interrupt(p)){
+		// every instruction adds at most one value
+		if (p->stack.stack_i >= VALUE_STACK_SIZE){
+			r->error = ERR_OUT_OF_MEMORY;
+			break;
+		}
 		// get one instruction and execute it
 		start_time(&p->time);
 		char instr = r->code.data[r->index++];
@@ -231,7 +236,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				// FOR,TO,STEP use stack for BC_BEGIN_LOOP so don't clear
 				// ON ignores value to pass it to GOTO/GOSUB, so don't clear
 				if (data != CMD_FOR && data != CMD_TO && data != CMD_STEP && data != CMD_ON)
-					p->stack.stack_i=0; //clear stack after most commands
+					stack_clear(&p->stack, &p->strs); //clear stack after most commands
 				check_time(&p->time, 2);
 				break;
 				
diff --git a/source/interpreter/stack.h b/source/interpreter/stack.h
index 09bae2a..7e9b3f6 100644
--- a/source/interpreter/stack.h
+++ b/source/interpreter/stack.h
@@ -64,10 +64,27 @@ static inline void* value_str(struct stack_entry* e){
 	if (e->type == VAR_STRING && is_dyn_str((struct string*)value)){
 		assert(((struct string*)value)->uses > 0);
 		((struct string*)value)->uses--;
+		e->type |= STACK_RELEASED; // only once per entry
 	}
 	return value;
 }
 
+/// Removes all entries from the stack, including strings that were not read.
+///
+/// @param s Stack to clear
+/// @param strs Strings that may be referred to by the stack
+static inline void stack_clear(struct value_stack* s, struct strings* strs){
+	for (int i = 0; i < s->stack_i; ++i){
+		// Only strings from the string table are counted. Other strings might
+		// be part of code that was replaced since, so don't read those.
+		struct string* str = s->entry[i].value.ptr;
+		if (s->entry[i].type == VAR_STRING && strs->strs <= str && str < strs->strs + strs->strs_max){
+			value_str(&s->entry[i]);
+		}
+	}
+	s->stack_i = 0;
+}
+
 // Inlining the stack functions improved speed from ~380 to ~360
 // (Placing in ICTM changed to 370 instead; consider again if running out of space...?
 
diff --git a/source/interpreter/strs.h b/source/interpreter/strs.h
index 6bbddea..2ee1252 100644
--- a/source/interpreter/strs.h
+++ b/source/interpreter/strs.h
@@ -73,6 +73,16 @@ static inline bool is_dyn_str(struct string* s){
 	return s->type == STRING_CHAR || s->type == STRING_WIDE;
 }
 
+/// Stores a new string to a string variable, releasing the string it held.
+static inline void str_assign(void* var, struct string* s){
+	struct string** dest = (struct string**)var;
+	if (*dest && is_dyn_str(*dest)){
+		(*dest)->uses--;
+	}
+	s->uses++;
+	*dest = s;
+}
+
 /// Checks if character is a lowercase letter ('a'-'z')
 bool is_lower(char c);
 /// Checks if character is an uppercase letter ('A'-'Z')
diff --git a/source/interpreter/vars.h b/source/interpreter/vars.h
index 47a5d17..e8a56d1 100644
--- a/source/interpreter/vars.h
+++ b/source/interpreter/vars.h
@@ -28,6 +28,8 @@ enum types {
 	VAR_ARRAY=8,
 	/// This one is silly. It marks an operator such as , or ;.
 	STACK_OP=16,
+	/// Marks a stack entry whose temporary string was already released.
+	STACK_RELEASED=32,
 };
 
 // This file defines the data structures used to store variable information.
diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index 9b5cf3f..7a8b1d8 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -258,6 +258,9 @@ void cmd_bgread(struct ptc* p){
 			*tile = INT_TO_FP(tiledata);
 		} else {
 			struct string* dest = get_new_str(&p->strs);
+			if (!dest){
+				ERROR(ERR_OUT_OF_MEMORY);
+			}
 			void** tile = ARG(3)->value.ptr; // pointer to string (which is itself a pointer)
 //			fixp_to_str(INT_TO_FP(tiledata), dest);
 			dest->ptr.s[0] = hex_digits[(tiledata & 0xF000) >> 12];
@@ -265,8 +268,7 @@ void cmd_bgread(struct ptc* p){
 			dest->ptr.s[2] = hex_digits[(tiledata & 0x00F0) >> 4];
 			dest->ptr.s[3] = hex_digits[(tiledata & 0x000F) >> 0];
 			dest->len = 4;
-			dest->uses = 1;
-			*tile = dest;
+			str_assign(tile, dest);
 		}
 	} else {
 		fixp* chr = ARG(3)->value.ptr;
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 5452a8c..adbf60a 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -314,14 +314,17 @@ void con_reprompt(struct console* con, void* prompt_str){
 
 /// Stores characters of an entered line to a string variable
 static void assign_line(struct ptc* p, struct string** dest, const u16* text, int len){
-	struct string* s = get_new_str(&p->strs);
-	if (!s){
-		ERROR(ERR_OUT_OF_MEMORY);
-	}
-	if (*dest != NULL && is_dyn_str(*dest)){
-		(*dest)->uses--;
+	struct string* s = *dest;
+	if (s != NULL && is_dyn_str(s) && s->uses == 1){
+		// No one else refers to this string, so it can be written again.
+		s->type = p->strs.type;
+	} else {
+		s = get_new_str(&p->strs);
+		if (!s){
+			ERROR(ERR_OUT_OF_MEMORY);
+		}
+		str_assign(dest, s);
 	}
-	*dest = s;
 	
 	// If string defaulted to STRING_CHAR, promote it to STRING_WIDE as needed
 	// As long as MAX_STRLEN > CONSOLE_WIDTH / sizeof(u16), this is safe,
@@ -333,7 +336,6 @@ static void assign_line(struct ptc* p, struct string** dest, const u16* text, in
 			s->type = STRING_WIDE;
 		}
 	}
-	s->uses = 1;
 	s->len = len;
 	for (int j = 0; j < len; ++j){
 		if (s->type == STRING_WIDE){
@@ -358,7 +360,7 @@ void cmd_input(struct ptc* p){
 		if (ARG(1)->type == STACK_OP && ARG(1)->value.number == OP_SEMICOLON){
 			// check prompt string
 			if (ARG(0)->type & VAR_STRING){
-				prompt_str = ARG(0)->value.ptr;
+				prompt_str = VALUE_STR(ARG(0));
 				index = 2; // variables start here
 			} else {
 				ERROR(ERR_TYPE_MISMATCH);
@@ -448,7 +450,7 @@ void cmd_linput(struct ptc* p){
 	struct stack_entry* e;
 	if (p->stack.stack_i == 3){
 		// check prompt string
-		prompt_str = ARG(0)->value.ptr;
+		prompt_str = VALUE_STR(ARG(0));
 		e = ARG(2);
 	} else {
 		e = ARG(0);
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index edc2242..aebc8c9 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -977,8 +977,7 @@ void cmd_chrread(struct ptc* p){
 		}
 		dest->type = STRING_CHAR; // force smaller type is always safe
 		dest->len = 64;
-		dest->uses = 1;
-		*out = dest;
+		str_assign(out, dest);
 	} else {
 		ERROR(ERR_INVALID_RESOURCE_TYPE);
 	}
-- 
2.43.0


From 657e53ecd3eccd9c8a5a6b1c04c0d30698ec9804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 29/82] fix: a string function reports when there is no memory
 left instead of using a null pointer

---
 source/extension/sbc_memory.c |  8 +++++++-
 source/interpreter/strfuncs.c | 26 ++++++++++++++++++++++----
 source/subsystem/resources.c  |  9 +++++++++
 source/subsystem/sysvars.c    |  6 ++++++
 4 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 1752027..21a236a 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -209,9 +209,12 @@ void func_addr(struct ptc* p){
 			ERROR(ERR_ILLEGAL_FUNCTION_CALL); // name too long
 		}
 		// get_var
-		char var_name[17]; // skip = at beginning
+		char var_name[MAX_STRLEN]; // skip = at beginning
 		str_char_copy(resource, (u8*)var_name);
 		struct named_var* v = get_var(&p->vars, var_name+1, len-1, type);
+		if (!v){
+			ERROR(p->vars.error);
+		}
 		
 		if (addr_type == FUNC_ADDR_VAR_STRUCT){
 			res_ptr = v;
@@ -300,6 +303,9 @@ void func_addr(struct ptc* p){
 
 void func_ptr(struct ptc* p){
 	struct string* out_str = get_new_str(&p->strs);
+	if (!out_str){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	
 	fixp ptr = STACK_REL_NUM(-1);
 	--p->stack.stack_i;
diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index ea3bb84..c5ca0ea 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -33,14 +33,17 @@ void func_mid(struct ptc* p){
 	STACK_REL_INT_MIN(-1,0,len);
 	s->stack_i -= 3;
 	
-	s16 max_len = (s16)str_len(str) - (s16)start;
+	int max_len = (int)str_len(str) - start;
 	if (max_len <= 0){
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
 		return;
-	} else if (max_len <= (s16)len){
+	} else if (max_len <= len){
 		len = max_len;
 	}
 	
+	if (!dest){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	dest->uses = 1;
 	dest->len = len;
 	
@@ -84,6 +87,9 @@ void func_str(struct ptc* p){
 	fixp n = STACK_REL_NUM(-1);
 	
 	struct string* s = get_new_str(&p->strs);
+	if (!s){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	
 	fixp_to_str(n, s);
 	s->uses = 1;
@@ -99,6 +105,9 @@ void func_instr(struct ptc* p){
 	if (p->exec.argcount == 3){
 		struct stack_entry* startv = stack_pop(s);
 		start = VALUE_INT(startv);
+		if (start < 0){
+			ERROR(ERR_OUT_OF_RANGE);
+		}
 	}
 	struct stack_entry* substring = stack_pop(s);
 	struct stack_entry* string = stack_pop(s);
@@ -170,15 +179,18 @@ void func_subst(struct ptc* p){
 		count = len; // replaces all if less than max
 	}
 	int repl_len = str_len(repl);
+	int remaining = len-start-count;
 	// actual copying
+	if (start + repl_len + (remaining > 0 ? remaining : 0) > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
+	if (!dest){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	dest->uses = 1;
-	if (start + repl_len > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 
 	str_copy_buf(str_at(str, 0), dest->ptr.s, str_type(str) | (str_type(dest) << STR_COPY_DEST), start);
 //	iprintf("%s\n",dest->ptr.s);
 	str_copy_buf(str_at(repl, 0), str_at(dest, start), str_type(repl) | (str_type(dest) << STR_COPY_DEST), str_len(repl));
 //	iprintf("%s\n",dest->ptr.s);
-	int remaining = str_len(str)-start-count;
 	if (remaining > 0)
 		str_copy_buf(str_at(str, start+count), str_at(dest, start + str_len(repl)), str_type(str) | (str_type(dest) << STR_COPY_DEST), remaining);
 //	iprintf("%s\n",dest->ptr.s);
@@ -217,6 +229,9 @@ void _func_substring(struct ptc* p, bool right){
 	}
 	if (count > max_len) count = max_len;
 
+	if (!dest){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	dest->uses = 1;
 	dest->len = count;
 
@@ -262,6 +277,9 @@ void func_hex(struct ptc* p){
 		num &= 0x0fffff >> 4*(5-digits);
 	}
 	int len = 0;
+	if (!dest){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	// once again we can just force the type to work here. there will always be enough space.
 	dest->type = STRING_CHAR;
 	sprintf((char*)dest->ptr.s, "%0*X%n", digits, num, &len);
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index aebc8c9..9eac64e 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -965,6 +965,9 @@ void cmd_chrread(struct ptc* p){
 	if (p->exec.error) return; // something went wrong
 
 	if (TYPE_CHR == info.type_id){
+		if (!dest){
+			ERROR(ERR_OUT_OF_MEMORY);
+		}
 		// resource is valid
 		u8* chr_data = (u8*)info.data + 32*id;
 		// convert this to string
@@ -1273,6 +1276,9 @@ void sys_result(struct ptc* p){
 
 void sys_package(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	int i = 0;
@@ -1292,6 +1298,9 @@ void sys_package(struct ptc* p){
 
 void sys_prgname(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = strlen(p->res.prgname);
diff --git a/source/subsystem/sysvars.c b/source/subsystem/sysvars.c
index 5fd0eb4..2cd4449 100644
--- a/source/subsystem/sysvars.c
+++ b/source/subsystem/sysvars.c
@@ -47,6 +47,9 @@ void sys_date(struct ptc* p){
 	int year = tm->tm_year + 1900;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 10;
@@ -75,6 +78,9 @@ void sys_time(struct ptc* p){
 	int sec = tm->tm_sec;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 8;
-- 
2.43.0


From c37ab417f528d9a988c31caeb8840acebd6403ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 30/82] fix: array sizes that overflow, negative second
 subscripts and too many values in one line are errors

---
 source/interpreter/arrays.c |  7 ++++---
 source/interpreter/runner.c | 12 +++++++++---
 source/interpreter/vars.c   |  2 +-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/source/interpreter/arrays.c b/source/interpreter/arrays.c
index dad69ca..20e46e8 100644
--- a/source/interpreter/arrays.c
+++ b/source/interpreter/arrays.c
@@ -27,13 +27,14 @@ void free_mem_arr(struct arrays* a){
 
 void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	u32* new_arr = (u32*)&((union value*)a->arr_data)[a->arr_data_next];
-	int size = size1;
+	uint64_t full_size = size1; // can't overflow
 	if (size2 != ARR_DIM2_UNUSED){
-		size *= size2;
+		full_size *= size2;
 	}
-	if (a->arr_data_next + size + 2 >= a->arr_data_size){
+	if (full_size >= a->arr_data_size || a->arr_data_next + full_size + 2 >= a->arr_data_size){
 		return NULL; // not enough memory for this
 	}
+	int size = full_size;
 	a->arr_data_next += size + 2;
 	new_arr[0] = size1;
 	new_arr[1] = size2;
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index cf79d9c..efceb07 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -160,6 +160,12 @@ struct var_name read_var_name(struct bytecode* b, idx index){
 	return result;
 }
 
+/// Converts the second index of an array. Negative indices are never valid, but
+/// must not be mistaken for a missing index.
+static inline idx dim2_index(int index){
+	return index < 0 ? ARR_DIM2_UNUSED - 1 : (idx)index;
+}
+
 /// The big interpreter function.
 /// 
 /// Takes a chunk of bytecode stored in code and runs it.
@@ -326,7 +332,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				} else {
 					// array element
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
-					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+					idx b = (r->argcount == 2) ? dim2_index(STACK_REL_INT(-1)) : ARR_DIM2_UNUSED;
 					p->stack.stack_i -= r->argcount;
 					
 					union value* entry = get_arr_entry_via_ptr(&p->vars, &v->value, a, b, v->type);
@@ -376,7 +382,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					x = &v->value;
 				} else {
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
-					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+					idx b = (r->argcount == 2) ? dim2_index(STACK_REL_INT(-1)) : ARR_DIM2_UNUSED;
 					p->stack.stack_i -= r->argcount;
 					
 					union value* val = get_arr_entry(&p->vars, var.name, var.len, var.type | VAR_ARRAY, a, b);
@@ -402,7 +408,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 			case BC_DIM:
 				{
 				idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
-				idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+				idx b = (r->argcount == 2) ? dim2_index(STACK_REL_INT(-1)) : ARR_DIM2_UNUSED;
 				p->stack.stack_i -= r->argcount;
 				
 				iprintf("name=");
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 6b43360..c481276 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -174,7 +174,7 @@ union value* get_arr_entry_via_ptr(struct variables* v, union value* arr, u32 ix
 	if (ix < arr_size(arr->ptr, ARR_DIM1)){
 		if (iy == ARR_DIM2_UNUSED){
 			return arr_entry(arr->ptr, ix, 0);
-		} else if (iy < arr_size(arr->ptr, ARR_DIM2)){
+		} else if (arr_size(arr->ptr, ARR_DIM2) != ARR_DIM2_UNUSED && iy < arr_size(arr->ptr, ARR_DIM2)){
 			return arr_entry(arr->ptr, ix, iy);
 		} else {
 			v->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
-- 
2.43.0


From c9cdb582cd6a69b036e0ccc429815dde644e17c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 31/82] fix: DIRECT mode works when no memory is left for CODE$

---
 source/system.c | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/source/system.c b/source/system.c
index d70569c..a59ec29 100644
--- a/source/system.c
+++ b/source/system.c
@@ -276,12 +276,35 @@ int sbc_benchmark(struct launch_info* info){
 	return 0;
 }
 
-// This is the DIRECT mode prompt.
-// Pretty basic, but it works.
+/// Reads a line for DIRECT mode and stores it to CODE$.
+/// This is equivalent to LINPUT CODE$, but works even if there is no memory left
+/// for CODE$ (then, only `line` is set)
+///
+/// @param p Program state
+/// @param line String that the line is read into
 // TODO:IMPL:LOW Redesign to remove prompt symbol
-struct program launcher = {
-	13, "LINPUT CODE$\r"
-};
+void direct_prompt(struct ptc* p, struct string* line){
+	struct string* dest = line;
+	p->exec.code = (struct bytecode){0}; // no code is running here
+	p->exec.index = 0;
+	p->exec.argcount = 0;
+	stack_clear(&p->stack, &p->strs);
+	stack_push(&p->stack, (struct stack_entry){VAR_STRING | VAR_VARIABLE, {.ptr = &dest}});
+	cmd_linput(p);
+	stack_clear(&p->stack, &p->strs);
+	if (p->exec.error){
+		p->exec_old = p->exec; // as for any other code
+		return;
+	}
+	
+	struct named_var* code = get_var(&p->vars, "CODE", 4, VAR_STRING);
+	struct string* copy = code ? get_new_str(&p->strs) : NULL;
+	if (copy){
+		copy->type = line->type; // a line is short enough for either type
+		str_copy(line, copy);
+		str_assign(&code->value.ptr, copy);
+	}
+}
 
 enum launch_state {
 	LAUNCH_PROMPT,
@@ -347,17 +370,15 @@ int launch_system(void* launch_info){
 		return -1;
 	}
 
-	// Tokenize launcher into big bytecode block
-	struct bytecode_params params = calc_min_bytecode(&p->exec.prg);
-	struct bytecode prompt_bc = init_bytecode_size(2 * launcher.size, params.lines, params.labels);
-
 	// DIRECT setup
-	tokenize_full(&launcher, &prompt_bc, p, TOKOPT_NONE);
+	// The single use belongs to this function, so this is never moved to another string
+	u16 prompt_buffer[MAX_STRLEN];
+	struct string prompt_line = {STRING_CHAR, 0, 1, {.w = prompt_buffer}};
 	
 	// editor setup
 	// Reduce memory fragmentation by loading program into existing memory
 	load_prg(&p->exec.prg, "programs/EDITOR.PTC"); // TODO:CODE:MED move EDITOR to resources
-	params = calc_min_bytecode(&p->exec.prg);
+	struct bytecode_params params = calc_min_bytecode(&p->exec.prg);
 	struct bytecode editor_bc = init_bytecode_size(2 * p->exec.prg.size, params.lines, params.labels);
 	tokenize_full(&p->exec.prg, &editor_bc, p, TOKOPT_VARIABLE_IDS);
 
@@ -386,7 +407,7 @@ int launch_system(void* launch_info){
 		switch (state){
 			case LAUNCH_PROMPT: // DIRECT mode
 				{
-				run(prompt_bc, p); // get prompt
+				direct_prompt(p, &prompt_line); // get prompt
 				
 				// check status
 				if (p->exec.error == ERR_BUTTON_SIGNAL){
@@ -403,7 +424,7 @@ int launch_system(void* launch_info){
 					break;
 				}
 				
-				void* cmd = get_var(&p->vars, "CODE", 4, VAR_STRING)->value.ptr;
+				void* cmd = &prompt_line;
 				if (str_comp(cmd, "S\011REM BENCH")){
 					state = LAUNCH_DEBUG;
 					debug = LAUNCH_DEBUG_BENCH;
-- 
2.43.0


From be541811a396846e1e0dbb4d6e783fb8ae1f4eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 32/82] fix: numbers just below an integer and the lowest
 number are written correctly, its remainder is computed

---
 source/interpreter/operators.c | 2 +-
 source/interpreter/strs.c      | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index b2d78d3..3ae78b6 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -293,7 +293,7 @@ void op_modulo(struct ptc* p){
 	
 	if (y == 0) ERROR(ERR_DIVIDE_BY_ZERO);
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {x % y}});
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {(dfixp)x % y}});
 }
 
 void op_and(struct ptc* p){
diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 85eb283..df8c192 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -268,11 +268,16 @@ void fixp_to_char(const fixp n, u8* str){
 	if (n < 0){
 		(*str++) = '-';
 	}
-	fixp num = n < 0 ? -n : n;
+	u32 num = n < 0 ? -(u32)n : (u32)n; // also correct for the lowest number
 	
 	u32 integer = num >> FIXPOINT;
 	const u32 decimal_mask = (INT_TO_FP(1) - 1); //default: 0x00000fff
 	u32 decimal = ((((num & decimal_mask) + 2) * 1000) >> FIXPOINT);
+	if (decimal >= 1000){
+		// rounded up to the next integer
+		decimal = 0;
+		integer++;
+	}
 	u32 divisor = 100000;
 	bool trailing = false;
 	// Loop until divisor is zero (to get all digits)
-- 
2.43.0


From 20808e59172f596adadb4a56d47ab7c700c75fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 33/82] fix: only the arguments of SORT itself are arrays,
 commas of PRINT end at ELSE

---
 source/interpreter/tokens.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 7e51d02..e09aa96 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1092,12 +1092,15 @@ void tok_eval(struct tokenizer* state){
 					// separator between TRUE/FALSE paths of the IF.
 					tok_eval_clean_stack(&e, 0);
 					e.result[e.result_i++] = state->tokens[i];
+					is_sort = false;
+					implicit_commas = true;
 					continue;
 				} else if (state->tokens[i].cmd == CMD_SORT || state->tokens[i].cmd == CMD_RSORT){
 					// SORT, RSORT need arrays for arguments >2, so mark these functions
 					// TODO:IMPL:NONE Determine a way to indicate arrays unambiguously (such as "A[]")
 					// and make it an option
 					is_sort = true;
+					e.argc_stack[0] = 0; // count the arguments of this command only
 				} else if (state->tokens[i].cmd == CMD_DATA){
 					// DATA terminates the line - everything after it is parsed differently
 					state->state = TKR_NONE; // Tell tokenizer to start new line
@@ -1145,6 +1148,7 @@ void tok_eval(struct tokenizer* state){
 			// dim ends
 			tok_eval_clean_stack(&e, 0);
 			is_dim = false;
+			is_sort = false;
 			implicit_commas = true;
 			if (is_for){
 				e.result[e.result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
-- 
2.43.0


From ad382fc524a3f475948fd62ea044a3683f16f63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 34/82] fix: malformed and overlong lines and names overran the
 tokenizer's buffers

---
 source/interpreter/tokens.c | 55 +++++++++++++++++++++++++++----------
 source/interpreter/tokens.h |  2 +-
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index e09aa96..7204315 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -251,13 +251,14 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 	int old_cursor;
 	while (state.cursor < state.source->size){
 		old_cursor = state.cursor;
-		error = tok_none(&state);
+		// Every step adds at most one token, tok_eval may add one more per line
+		error = state.token_i < TOKENS_LINE_MAX-1 ? tok_none(&state) : ERR_SYNTAX;
 		if (error != ERR_NONE){
 			if (opts & TOKOPT_STRICT_ERROR) break;
 			state.output->data[state.output->size++] = BC_ERROR;
 			state.output->data[state.output->size++] = error;
 			iprintf("Error at: %d\n", (int)state.output->size);
-			while (state.source->data[state.cursor++] != '\r');
+			while (state.cursor < state.source->size && state.source->data[state.cursor++] != '\r');
 			error = ERR_NONE;
 			state.token_i = 0;
 			continue;
@@ -321,7 +322,8 @@ int tok_convert(struct tokenizer* state){
 	
 	tok_prio(state);
 	
-	tok_eval(state);
+	int eval_res = tok_eval(state);
+	if (eval_res != ERR_NONE) return eval_res;
 	
 	int test_res = tok_test(state);
 	if (test_res != ERR_NONE) return test_res;
@@ -331,7 +333,9 @@ int tok_convert(struct tokenizer* state){
 	if (code_res != ERR_NONE) return code_res;
 	int line_end = state->output->size;
 	int line_length = line_end - line_begin;
-	state->output->line_length[state->lines_processed++] = line_length;
+	if (state->lines_processed < MAX_LINES){
+		state->output->line_length[state->lines_processed++] = line_length;
+	}
 
 	return ERR_NONE;
 }
@@ -449,7 +453,7 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
-	char stack[40];
+	char stack[TOKENS_LINE_MAX]; // every token adds at most one entry
 	u8 stack_i = 0;
 	int argc = 0;
 	stack[0] = 0; // Fixes undefined reads detected via -fanalyzer
@@ -544,9 +548,10 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case function:
-				if (argc){
-					stack_i -= argc;
+				if (argc > stack_i){
+					return ERR_TEST_FUNCTION; // an argument is missing
 				}
+				stack_i -= argc;
 				u8 func = state->tokens[i].cmd;
 				valid = func_format[func];
 				is_valid = check_cmd(&stack[stack_i], argc, valid);
@@ -564,6 +569,9 @@ int tok_test(struct tokenizer* state){
 			case name:
 				if (argc){
 					// process argc counts first
+					if (argc > stack_i){
+						return ERR_TEST_ARRAY; // an index is missing
+					}
 					const char* arr_valid = "N,NN";
 					is_valid = check_cmd(&stack[stack_i-argc], argc, arr_valid);
 					if (!is_valid){
@@ -586,6 +594,9 @@ int tok_test(struct tokenizer* state){
 			case dim_arr:
 				if (argc){
 					// process argc counts first
+					if (argc > stack_i){
+						return ERR_TEST_ARRAY; // an index is missing
+					}
 					const char* dim_valid = "N,NN";
 					is_valid = check_cmd(&stack[stack_i-argc], argc, dim_valid);
 					if (!is_valid){
@@ -956,15 +967,15 @@ tok_code_exit:
 /// exclusively within tok_eval.
 struct eval {
 	//value and op could be combined maybe
-	struct token* value_stack[100];
+	struct token* value_stack[TOKENS_LINE_MAX];
 	u8 value_i;
-	struct token* op_stack[100];
+	struct token* op_stack[TOKENS_LINE_MAX];
 	u8 op_i;
 	/// Arguments stack
-	u8 argc_stack[64];
+	u8 argc_stack[TOKENS_LINE_MAX+1]; // one per nesting level
 	u8 argc_i;
 	// reordered tokens for conversion
-	struct token result[100];
+	struct token result[TOKENS_LINE_MAX];
 	u8 result_i; // first unused entry
 };
 
@@ -984,7 +995,7 @@ void tok_eval_clean_stack(struct eval* e, u16 prio){
 // This one is infinitely less bad than than the PTC-EmkII attempt. :)
 // That one was awful. Go look at it if you want to laugh at bad code.
 // I'm still amazed it worked in the end.
-void tok_eval(struct tokenizer* state){
+int tok_eval(struct tokenizer* state){
 	struct eval e = {0};
 	bool is_for = false;
 	bool is_dim = false;
@@ -1027,6 +1038,9 @@ void tok_eval(struct tokenizer* state){
 					}
 				}
 			} else { // assumed ) or ]
+				if (!e.argc_i){
+					return ERR_SYNTAX; // was never opened
+				}
 				// handle 0-args PI(), BUTTON() case
 				if (state->tokens[i-1].type == operation && state->tokens[i-1].cmd == OP_OPEN_PAREN){
 					e.argc_stack[e.argc_i] = 0;
@@ -1191,6 +1205,7 @@ void tok_eval(struct tokenizer* state){
 		state->tokens[i] = e.result[i];
 	}
 	state->token_i = e.result_i;
+	return ERR_NONE;
 }
 
 // take one line (to /r) and calculate priorities of tokens
@@ -1224,12 +1239,12 @@ void tok_prio(struct tokenizer* state){
 					state->tokens[i].prio = nest + 4;
 					break;
 				case OP_SUBTRACT:
-					if ((i>0 && state->tokens[i-1].type == number) ||
+					if (i>0 && (state->tokens[i-1].type == number ||
 							state->tokens[i-1].type == name ||
 							state->tokens[i-1].type == sysvar || 
 							(state->tokens[i-1].type == operation && (
 								state->tokens[i-1].cmd > OP_OPEN_PAREN
-							))){
+							)))){
 						state->tokens[i].prio = nest + 4;
 					} else {
 						state->tokens[i].cmd = OP_NEGATE;
@@ -1282,7 +1297,9 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 	state->tokens[state->token_i].ofs = state->cursor;
 	char c;
 	do {
-		state->tokens[state->token_i].len++;
+		if (state->tokens[state->token_i].len < UINT8_MAX){
+			state->tokens[state->token_i].len++;
+		}
 		state->cursor++;
 		c = state->source->data[state->cursor];
 	} while (condition(c));
@@ -1322,6 +1339,9 @@ int tok_none(struct tokenizer* state){
 		state->cursor++;
 	} else if (c == '"'){
 		tok_string(state);
+		if (state->cursor - state->tokens[state->token_i-1].ofs > UINT8_MAX){
+			return ERR_STRING_TOO_LONG; // len can't hold this
+		}
 	} else if (c == '&') {
 		tok_base_number(state);
 	} else if (is_number(c) || c == '.') {
@@ -1403,6 +1423,11 @@ int tok_name(struct tokenizer* state){
 	} else if (0 <= (index = tok_in_str_index(sysvars, state->source->data, &state->tokens[state->token_i]))){
 		state->tokens[state->token_i].type = sysvar;
 		state->tokens[state->token_i].cmd = index; // overrides len
+	} else {
+		struct token* t = &state->tokens[state->token_i];
+		if (t->len - (state->source->data[t->ofs + t->len - 1] == '$') > VAR_NAME_MAX_LENGTH){
+			return ERR_SYNTAX; // name is too long
+		}
 	}
 	
 	state->token_i++;
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 9fc917a..4571232 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -131,7 +131,7 @@ int tok_convert(struct tokenizer* state);
 
 void tok_prio(struct tokenizer* state);
 
-void tok_eval(struct tokenizer* state);
+int tok_eval(struct tokenizer* state);
 
 int tok_code(struct tokenizer* state);
 
-- 
2.43.0


From 364a1d3278021a6fd55ee7e91e8174870678c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 35/82] fix: a FOR loop that is not entered left its entry
 behind; its inner named NEXTs are matched

---
 source/interpreter/runner.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index efceb07..64c36d8 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -514,6 +514,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 										result.index += 2; // past NEXT [var]
 										break; // ignore nesting?
 									}
+									// The NEXT of a loop within the skipped loop ends that loop
+									if (nest > 1) nest--;
 									// ignore otherwise? unclear
 								} else {
 									// treat as generic next
@@ -526,6 +528,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 						}
 						result.index += 2; // advance past this command
 					}
+					// this loop isn't entered: the next NEXT belongs to another loop
+					p->calls.stack_i--;
 					// index now points to one past the NEXT, the correct location
 					r->index = result.index;
 				} else {
-- 
2.43.0


From 236b04ac257a2397ac923a33e98dd5fbf0646d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 36/82] fix: SORT did not sort most arrays

---
 source/subsystem/variables.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index 8339c29..76d4050 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -39,10 +39,6 @@ typedef bool(*comparison)(union value, union value);
 // based on
 // https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#cite_ref-:2_13-2
 int _partition(union value* data, union value** extra, int start, int end, comparison comp){
-	if (end - start <= 1){
-		return start; // already sorted
-	}
-
 	union value pivot = data[start+(end - start)/2]; // select a random pivot
 	--start;
 	++end;
@@ -54,7 +50,7 @@ int _partition(union value* data, union value** extra, int start, int end, compa
 		do {
 			--end;
 		} while (comp(pivot, data[end]));
-		if (start >= end) return start;
+		if (start >= end) return end; // always less than the initial end
 
 		_sort_swap(data, extra, start, end);
 	}
@@ -99,7 +95,7 @@ bool str_rsort_comp(union value a, union value b){
 
 void quick_sort(union value* data, union value** extra, int start, int end, comparison comp){
 	// https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#Hoare_partition_scheme
-	if (end - start <= 1) return;
+	if (start >= end) return; // nothing to sort
 
 	int p = _partition(data, extra, start, end, comp);
 	quick_sort(data, extra, start, p, comp);
-- 
2.43.0


From 86f8ec91b08d019d9b6f2a346907c2b864e29ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 37/82] fix: IF ... THEN RESTORE label jumped to the label

---
 source/interpreter/flow.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 7511779..5241e68 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -172,13 +172,13 @@ void cmd_if(struct ptc* p){
 		jump_ok = p->exec.code.data[index+1] == CMD_ELSE;
 		index += 2; // move to instruction past ELSE or ENDIF
 	}
-	// If there's a label AND it's not followed by a GOSUB
+	// If there's a label AND it's not followed by a command using it (such as GOSUB)
 	char* label = (char*)&p->exec.code.data[index];
 	if (jump_ok && label[0] == BC_LABEL_STRING){
 		int len = label[1];
 		int instr = label[2+len+(len & 1)];
 		int cmd = label[2+len+(len & 1)+1];
-		if (instr == BC_COMMAND && (cmd == CMD_GOSUB || cmd == CMD_GOTO)){
+		if (instr == BC_COMMAND && (cmd == CMD_GOSUB || cmd == CMD_GOTO || cmd == CMD_RESTORE)){
 			// Don't jump because it is handled by next instruction
 		} else {
 			// GOTO label
-- 
2.43.0


From 10a7a86a892f16948f5d6efd12fcf95eab6e22b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 38/82] fix: drawing the last key of the panel read past the
 end of the key table

---
 source/subsystem/panel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 306f784..6ff920d 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -451,7 +451,7 @@ int get_pressed_key(struct ptc* ptc){
 
 void offset_key(struct ptc* p, int id, int d){
 	if (id<PANEL_KEYS){
-		for (int i = id; p->panel.keys[i].vars[0] == p->panel.key_pressed && i<PANEL_KEYS; ++i){
+		for (int i = id; i<PANEL_KEYS && p->panel.keys[i].vars[0] == p->panel.key_pressed; ++i){
 			p->panel.keys[i].pos.x += d;
 			p->panel.keys[i].pos.y += d;
 		}
-- 
2.43.0


From 81d35f8089b46181a879da9334e4fdec0931556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 39/82] fix: the panel code re-read the panel type while the
 program changes it, indexing key tables with negative numbers

---
 source/subsystem/panel.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 6ff920d..d969d08 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -240,7 +240,9 @@ void cmd_iconclr(struct ptc* p){
 
 void func_iconchk(struct ptc* p){
 	int icon = get_pressed_key(p);
-	if (icon >= 90 && icon <= 94 && p->panel.keys[p->panel.id_pressed].active){
+	// the key can be released at any time
+	u8 id = *(volatile u8*)&p->panel.id_pressed;
+	if (icon >= 90 && icon <= 94 && id < PANEL_KEYS && p->panel.keys[id].active){
 		stack_push(&p->stack, (struct stack_entry){VAR_NUMBER, {INT_TO_FP(icon - 90)}});
 	} else {
 		stack_push(&p->stack, (struct stack_entry){VAR_NUMBER, {-INT_TO_FP(1)}});
@@ -373,7 +375,9 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 		p->iconpage += INT_TO_FP(p->iconpage < p->iconpmax);
 	}
 	iprintf("pressed_key=%d\n", pressed_key);
-	if (p->type == PNL_OFF || p->type == PNL_PNL) return;
+	// the program can change the type at any time (PNLTYPE, end of INPUT)
+	enum pnltype type = *(volatile enum pnltype*)&p->type;
+	if (type == PNL_OFF || type == PNL_PNL) return;
 	
 	bool refresh = false;
 	
@@ -388,7 +392,7 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 			refresh = true;
 		} else if (pressed_key <= 60 || pressed_key == 65){
 			int shift = !!(p->shift & PNL_SHIFT) ^ !!(p->shift & PNL_CAPS_LOCK);
-			int source_key_map = 2 * (p->type - 2) + (shift);
+			int source_key_map = 2 * (type - PNL_KYA) + (shift);
 			int source_key = pressed_key;
 			if (source_key_map == 5) source_key *= 2;
 			char c = keyboard_chr[source_key_map][source_key];
@@ -433,8 +437,11 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 
 void refresh_panel(struct ptc* ptc){
 	struct panel* p = &ptc->panel;
+	// the program can change the type at any time, including to one without keys
+	enum pnltype type = *(volatile enum pnltype*)&p->type;
+	if (type == PNL_OFF || type == PNL_PNL) return;
 	int shift = !!(p->shift & PNL_SHIFT) ^ !!(p->shift & PNL_CAPS_LOCK);
-	int source_key_chr = (2 * (p->type - 2) + shift) * 2;
+	int source_key_chr = (2 * (type - PNL_KYA) + shift) * 2;
 	memcpy(ptc->res.chr[18+CHR_BANKS], ptc->res.key_chr[source_key_chr], CHR_SIZE);
 	memcpy(ptc->res.chr[19+CHR_BANKS], ptc->res.key_chr[source_key_chr + 1], CHR_SIZE);
 	
-- 
2.43.0


From 0b7aff9a4f0a18bc6d3b7d1a4b155cd8a21d3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 40/82] fix: numbers with many decimal digits were read wrongly
 or crashed

---
 source/interpreter/strs.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index df8c192..ed73896 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -190,9 +190,12 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			for (size_t k = i; k < len; ++k){
 				digit = digit_value(str_at_wide(str, k));
 				if (digit >= 0 && digit < base){
-					fraction *= base;
-					maximum *= base;
-					fraction += digit;
+					// further digits are below the precision of a number
+					if (maximum < 100000000){
+						fraction *= base;
+						maximum *= base;
+						fraction += digit;
+					}
 				} else {
 					// Stop reading on invalid character (useful for VAL)
 					// Note: second period is not allowed
@@ -214,9 +217,9 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 	int64_t combined;
 	if (is_negative){
 		combined = INT_TO_FP(-number);
-		combined -= INT_TO_FP(1) * fraction / maximum;
+		combined -= (int64_t)INT_TO_FP(1) * fraction / maximum;
 	} else {
-		combined = ((int64_t)number * 4096) + 4096 * fraction / maximum;
+		combined = ((int64_t)number * 4096) + (int64_t)4096 * fraction / maximum;
 	}
 	
 //	printf("Number := %f Combined := %d\n", (double)number, combined);
-- 
2.43.0


From 2d9afc7e5b54bfa3e52812e4fb61d32df86515df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 41/82] fix: a numeric DATA item with leading spaces was read
 as 0

---
 source/interpreter/data.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index 82a9b5a..a9d256c 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -42,20 +42,21 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		if (i >= len){
 			return READ_ONE_ERR;
 		}
+		const int number = i;
 		// Read number!
-		for (; i < len && i - start < 16; ++i){
+		for (; i < len && i - number < 16; ++i){
 			u8 c = src[i];
 			if (is_number(c) || c == '-' || c == '.'){
-				conversion[i - start] = c;
+				conversion[i - number] = c;
 			} else if (c == BC_DATA_DELIM){ 
 				break; // stop reading here
 			} else {
 				return READ_ONE_ERR;
 			}
-			iprintf(":%c", conversion[i - start]);
+			iprintf(":%c", conversion[i - number]);
 		}
 		// Convert!
-		*((fixp*)dest->value.ptr) = u8_to_num(conversion, i - start);
+		*((fixp*)dest->value.ptr) = u8_to_num(conversion, i - number);
 	} else {
 		return READ_ONE_ERR;
 	}
-- 
2.43.0


From ca770cb5b9dc76b632d52a7f25f75d67b5461c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 42/82] fix: EXP and TAN were always refused; EXP overflow and
 SQR of a negative are errors

---
 source/interpreter/mathptc.c | 12 ++++++++++--
 source/interpreter/tokens.c  |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/mathptc.c b/source/interpreter/mathptc.c
index 97dba64..acea629 100644
--- a/source/interpreter/mathptc.c
+++ b/source/interpreter/mathptc.c
@@ -195,13 +195,21 @@ fixp func_exp_internal(fixp value){
 void func_sqr(struct ptc* p){
 	struct stack_entry* val = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_sqr_internal(VALUE_NUM(val)));
+	fixp n = VALUE_NUM(val);
+	if (n < 0){
+		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
+	}
+	STACK_RETURN_NUM(func_sqr_internal(n));
 }
 
 void func_exp(struct ptc* p){
 	struct stack_entry* val = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_exp_internal(VALUE_NUM(val)));
+	fixp n = VALUE_NUM(val);
+	if (exp(n/4096.0) >= 524288.0){
+		ERROR(ERR_OVERFLOW);
+	}
+	STACK_RETURN_NUM(func_exp_internal(n));
 }
 
 
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 7204315..d5ebb03 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -121,10 +121,10 @@ const char* cmd_format[] = {
 
 const char* func_format[] = {
 	"N","S","N,NN","N","0,N","NN","0","0,N",//BUTTON
-	"NN","N","N","N","","N","NN,NNN","N,NN","0",//ICONCHK
+	"NN","N","N","N","N","N","NN,NNN","N,NN","0",//ICONCHK
 	"0","SS,SSN","SN","S","N","SNN","0","NN","N",//RAD
 	"SN","N","N","N","N","NN","N,NN","",//SPHITRC
-	"NN","N","N","SNNS","","S",//VAL
+	"NN","N","N","SNNS","N","S",//VAL
 	"0",
 	"N","N","N","S,SN","N" // PTR
 };
-- 
2.43.0


From ed45efdfce38aa1cd8d47fae2c8f6e0fbaedc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 43/82] fix: a minus after [ is a negation, after a &H or &B
 number a subtraction

---
 source/interpreter/tokens.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index d5ebb03..da55316 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1240,10 +1240,12 @@ void tok_prio(struct tokenizer* state){
 					break;
 				case OP_SUBTRACT:
 					if (i>0 && (state->tokens[i-1].type == number ||
+							state->tokens[i-1].type == base_number ||
 							state->tokens[i-1].type == name ||
 							state->tokens[i-1].type == sysvar || 
 							(state->tokens[i-1].type == operation && (
-								state->tokens[i-1].cmd > OP_OPEN_PAREN
+								state->tokens[i-1].cmd == OP_CLOSE_PAREN ||
+								state->tokens[i-1].cmd == OP_CLOSE_BRACKET
 							)))){
 						state->tokens[i].prio = nest + 4;
 					} else {
-- 
2.43.0


From 117bd4de3a320b69a1946b98a48042b9df1faf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 44/82] fix: assigned system variables are checked after each
 assignment, not only at the end of the line

---
 source/interpreter/tokens.c | 53 ++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index da55316..ae9e6bb 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -748,6 +748,28 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 	// End of DATA special rules
 }
 
+/// Sysvars that allow assignment (and thus need validation)
+#define SYSVAR_NEEDS_VALIDATE (\
+		(1 << SYS_ICONPAGE) |\
+		(1 << SYS_ICONPMAX) |\
+		(1 << SYS_ICONPUSE) |\
+		(1 << SYS_TABSTEP) |\
+		(1 << SYS_MEM) |\
+		((uint64_t)1 << SYS_MEMSAFE)\
+	)
+
+/// Writes the checks of the sysvars used so far.
+/// This must be placed after the assignment or command that changes them.
+static void tok_sys_validate(uint64_t* sys_validate, char* data, idx* size){
+	for (int i = 0; i < 64; ++i){
+		if (*sys_validate & ((uint64_t)1 << i) & SYSVAR_NEEDS_VALIDATE){
+			data[(*size)++] = BC_SYSVAR_VALIDATE;
+			data[(*size)++] = i;
+		}
+	}
+	*sys_validate = 0;
+}
+
 int tok_code(struct tokenizer* state){
 	// assume the order is fixed
 	char* data = (char*)state->output->data;
@@ -764,10 +786,18 @@ int tok_code(struct tokenizer* state){
 					tok_data(state, state->tokens[i], data, size);
 				} else {
 					// convert token to command
+					// IF and ON look at the instruction that follows them
+					bool flow = state->tokens[i].cmd == CMD_IF || state->tokens[i].cmd == CMD_ON;
+					if (flow){
+						tok_sys_validate(&sys_validate, data, size);
+					}
 	//				iprintf("command: %d, %d\n", j, state->tokens[i].cmd);
 //					(void)first_of_line;
 					data[(*size)++] = first_of_line ? BC_COMMAND_FIRST : BC_COMMAND;
 					data[(*size)++] = state->tokens[i].cmd;
+					if (!flow){
+						tok_sys_validate(&sys_validate, data, size);
+					}
 				}
 				break;
 			
@@ -826,6 +856,9 @@ int tok_code(struct tokenizer* state){
 				data[(*size)++] = op;
 				
 				iprintf("%d", data[*size-1]);
+				if (op == OP_ASSIGN){
+					tok_sys_validate(&sys_validate, data, size);
+				}
 				break;
 				
 			case function:
@@ -937,25 +970,7 @@ int tok_code(struct tokenizer* state){
 	}
 	
 tok_code_exit:
-	// Validation must be placed at end to happen after assignment
-/// Sysvars that allow assignment (and thus need validation)
-#define SYSVAR_NEEDS_VALIDATE (\
-		(1 << SYS_ICONPAGE) |\
-		(1 << SYS_ICONPMAX) |\
-		(1 << SYS_ICONPUSE) |\
-		(1 << SYS_TABSTEP) |\
-		(1 << SYS_MEM) |\
-		((uint64_t)1 << SYS_MEMSAFE)\
-	)
-
-	if (sys_validate & SYSVAR_NEEDS_VALIDATE){
-		for (int i = 0; i < 64; ++i){
-			if (sys_validate & ((uint64_t)1 << i) & SYSVAR_NEEDS_VALIDATE){
-				data[(*size)++] = BC_SYSVAR_VALIDATE;
-				data[(*size)++] = i;
-			}
-		}
-	}
+	tok_sys_validate(&sys_validate, data, size);
 	
 	state->token_i = 0;
 	return ERR_NONE;
-- 
2.43.0


From 05792b876686214f91a7310b50fd89815f85acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 45/82] fix: reading ICONPAGE lost a page key pressed meanwhile

---
 source/subsystem/panel.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index d969d08..5fd95e6 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -506,11 +506,17 @@ void syschk_iconpmax(struct ptc* p){
 // if it is outside the valid range. (possibly only if the move places it out of range?)
 // This implementation will reset the value on reads as well though, which it should not.
 void syschk_iconpage(struct ptc* p){
-	if (p->panel.iconpage > p->panel.iconpmax){
-		p->panel.iconpage = p->panel.iconpmax;
-	} else if (p->panel.iconpage < 0){
-		p->panel.iconpage = 0;
+	const fixp old_page = *(volatile fixp*)&p->panel.iconpage;
+	fixp page = old_page;
+	if (page > p->panel.iconpmax){
+		page = p->panel.iconpmax;
+	} else if (page < 0){
+		page = 0;
 	} else {
-		p->panel.iconpage &= ((uint32_t)-1 << FIXPOINT); // must be integer
+		page &= ((uint32_t)-1 << FIXPOINT); // must be integer
+	}
+	// The page keys can change the page meanwhile: only write what needs to change
+	if (page != old_page){
+		p->panel.iconpage = page;
 	}
 }
-- 
2.43.0


From 35365edd13a6f7432257adc4657d261705399d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 46/82] fix: text already on the row became part of the line
 typed at a prompt

---
 source/subsystem/console.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index adbf60a..f862360 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -303,6 +303,10 @@ void con_prompt(struct console* con, void* prompt_str){
 	con_put(con, to_wide('?'));
 	if (con->x) con_newline(con, true); // only newline if necessary for user to have full line of input
 	con_scroll(con);
+	// The line is read back from the screen: text that was here is not part of it
+	for (int x = 0; x < CONSOLE_WIDTH; ++x){
+		con->text[con->y][x] = 0;
+	}
 }
 
 void con_reprompt(struct console* con, void* prompt_str){
-- 
2.43.0


From 411f01eff1b10b7a607b1c0ca71b22803a296ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 47/82] fix: memory access checks ignored the size of the
 access, ADDR of an unknown resource or of nothing crashed

---
 source/extension/sbc_memory.c | 17 ++++++++++-------
 source/subsystem/resources.c  |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 21a236a..698fef7 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -34,7 +34,7 @@
 		ERROR(ERR_NULL_ADDRESS);\
 	}\
 	if (p->memapi.sys_memsafe){\
-		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX){\
+		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX - (int)sizeof(type) + 1){\
 			ERROR(ERR_ILLEGAL_ADDRESS);\
 		} else if (ADDR_ALIGN && ((uintptr_t)addr & invalid_align)){\
 			ERROR(ERR_MISALIGNED_ADDRESS);\
@@ -124,7 +124,7 @@ void cmd_memfill(struct ptc* p){
 		ERROR(ERR_NULL_ADDRESS);\
 	}\
 	if (p->memapi.sys_memsafe){\
-		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX){\
+		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX - (int)sizeof(type) + 1){\
 			ERROR(ERR_ILLEGAL_ADDRESS);\
 		} else if (ADDR_ALIGN && ((uintptr_t)addr & invalid_align)){\
 			ERROR(ERR_MISALIGNED_ADDRESS);\
@@ -179,7 +179,7 @@ void func_addr(struct ptc* p){
 	// pointer: (ptr=offset): * (this reads a new pointer from address `offset`)
 	if (addr_type == FUNC_ADDR_DEREF){
 		if (p->memapi.sys_memsafe){
-			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX){
+			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX - (int)sizeof(void*) + 1){
 				ERROR(ERR_ILLEGAL_ADDRESS);
 			} else if (ADDR_ALIGN && (ofs_num & 0x3)){
 				ERROR(ERR_MISALIGNED_ADDRESS);
@@ -187,6 +187,9 @@ void func_addr(struct ptc* p){
 				ERROR(ERR_NULL_ADDRESS);
 			}
 		}
+		if (FIXP_TO_PTR(ofs_num) == NULL){
+			ERROR(ERR_NULL_ADDRESS);
+		}
 		// dereference this address once
 		void** ptr = (void**)FIXP_TO_PTR(ofs_num);
 		assert(ptr);
@@ -286,11 +289,11 @@ void func_addr(struct ptc* p){
 				ERROR(ERR_ILLEGAL_OFFSET);
 			}
 		}
-	} else if (len <= 5){
-		res_ptr = str_to_resource(p, resource);
-		if (p->exec.error == ERR_INVALID_RESOURCE_TYPE){
-			p->exec.error = ERR_NONE; // allowed here, retry with variable name
+	} else {
+		if (!verify_resource_type_str(resource)){
+			ERROR(ERR_INVALID_RESOURCE_TYPE);
 		}
+		res_ptr = str_to_resource(p, resource);
 		if (p->memapi.sys_memsafe){
 			if (ofs < 0 || ofs >= resource_size[get_resource_type(resource)]){
 				ERROR(ERR_ILLEGAL_OFFSET);
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 9eac64e..17a5e77 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -836,7 +836,7 @@ struct res_info get_verified_resource_type(struct ptc* p, const void* res){
 		p->exec.error = ERR_INVALID_RESOURCE_TYPE;
 		return info;
 	}
-	if ((info.type_id = get_resource_type(res)) == TYPE_INVALID){
+	if (!verify_resource_type_str(res) || (info.type_id = get_resource_type(res)) == TYPE_INVALID){
 		p->exec.error = ERR_INVALID_RESOURCE_TYPE;
 		return info;
 	}
-- 
2.43.0


From d59c3f0243e6b43fcb03bad771ea0d7f76246c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 48/82] fix: COLINIT accepted bank 0 color numbers out of range

---
 source/subsystem/resources.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 17a5e77..b59b60e 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -1067,7 +1067,7 @@ void cmd_colinit(struct ptc* p){
 			load_col((u8*)from_file, resource_path, name);
 
 			int index;
-			STACK_INT_RANGE(2,0,255,index);
+			STACK_INT_RANGE(1,0,255,index);
 			((u16*)col_data)[index] = from_file[index];
 		}
 	}
-- 
2.43.0


From cb7ec1ee78dd52bb6d1e4828953964fbd00b4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 49/82] fix: GCOPY with far off-screen coordinates did not end

---
 source/subsystem/graphics.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 7173cf1..d6a99f6 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -375,11 +375,18 @@ void cmd_gcopy(struct ptc* p){
 		y2 = temp;
 	}
 	
+	// Only pixels that are copied to a position on the page matter
+	int x_ofs = x3 - x1;
+	int y_ofs = y3 - y1;
+	int x_min = x_ofs < -x1 ? -x_ofs : x1;
+	int y_min = y_ofs < -y1 ? -y_ofs : y1;
+	int x_max = x2 + x_ofs > GRP_WIDTH-1 ? GRP_WIDTH-1 - x_ofs : x2;
+	int y_max = y2 + y_ofs > GRP_HEIGHT-1 ? GRP_HEIGHT-1 - y_ofs : y2;
 	// TODO:TEST:MED Check that this works with offscreen coords
 	iprintf("gcopy %d,%d,%d,%d,%d,%d\n", x1, y1, x2, y2, x3, y3);
 	if (y3 < y1 || (y3 == y1 && x3 < x1)){
-		for (int y = y1; y <= y2; ++y){
-			for (int x = x1; x <= x2; ++x){
+		for (int y = y_min; y <= y_max; ++y){
+			for (int x = x_min; x <= x_max; ++x){
 				u8 p;
 				if (x >= 0 && y >= 0 && x < GRP_WIDTH && y < GRP_HEIGHT){
 					p = src[grp_index(x,y)];
@@ -397,8 +404,8 @@ void cmd_gcopy(struct ptc* p){
 			}
 		}
 	} else {
-		for (int y = y2; y >= y1; --y){
-			for (int x = x2; x >= x1; --x){
+		for (int y = y_max; y >= y_min; --y){
+			for (int x = x_max; x >= x_min; --x){
 				u8 p;
 				if (x >= 0 && y >= 0 && x < GRP_WIDTH && y < GRP_HEIGHT){
 					p = src[grp_index(x,y)];
-- 
2.43.0


From e4a72bf69ec70cae06ef5931e9a06a3d967af1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 50/82] fix: GPAINT outside the page and GPUTCHR with other
 resources read out of bounds, GPUTCHR skipped row 0

---
 source/subsystem/graphics.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index d6a99f6..ab292b6 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -234,13 +234,19 @@ void cmd_gputchr(struct ptc* p){
 	STACK_INT_RANGE(4,0,15,pal);
 	size = STACK_INT(5);
 	if (size == 1 || size == 2 || size == 4 || size == 8){
+		// pointer to base resource
+		struct res_info i = get_verified_resource_type(p, resource);
+		u8* src = i.data;
+		if (!src || i.type_id != TYPE_CHR){
+			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
+		}
 		// Copy colors from character resource specified
 		// BG* -> COL0
 		// SP* -> COL1
 		char col_resource[] = "COLX\0";
 		col_resource[3] = str_at_char(resource, 0) == 'B' ? '0' : '1';
 		// take page hint from resource given
-		char maybe_page = str_at_char(resource, str_len(resource) - 1);
+		char maybe_page = i.type[strlen("COLX")];
 		if (maybe_page == 'L' || maybe_page == 'U'){
 			col_resource[4] = maybe_page;
 		}
@@ -251,12 +257,6 @@ void cmd_gputchr(struct ptc* p){
 		iprintf("GPUTCHR palette copy %s(%p) %s%c(%p)\n", col_resource, (void*)col_src, "COL2", (p->graphics.screen ? 'L' : 'U'), (void*)col_dest);
 		p->res.regen_col = true;
 
-		// pointer to base resource
-		struct res_info i = get_verified_resource_type(p, resource);
-		u8* src = i.data;
-		if (!src){
-			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
-		}
 		// pointer to relevant character
 		src = &src[CHR_UNIT_SIZE * chr];
 
@@ -271,7 +271,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j;
 						int yp = y_start + y*size + i;
-						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col1, p->graphics.drawmode);
 						}
 					}
@@ -280,7 +280,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j + size;
 						int yp = y_start + y*size + i;
-						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col2, p->graphics.drawmode);
 						}
 					}
@@ -497,6 +497,9 @@ void cmd_gpaint(struct ptc* p){
 	} else {
 		c = p->graphics.color;
 	}
+	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT){
+		return; // there is nothing to fill outside the page
+	}
 	u8* data = p->res.grp[p->graphics.info[p->graphics.screen].drawpage];
 
 	int match;
-- 
2.43.0


From 617a80ea8c7383c246f9315814481758f28e0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 51/82] fix: CLEAR within a FOR loop left the loop with a freed
 variable; SWAP with MEM$ shared its string

---
 source/subsystem/variables.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index 76d4050..e28794f 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -4,6 +4,30 @@ void cmd_clear(struct ptc* p){
 	reset_var(&p->vars);
 	reset_str(&p->strs);
 	reset_arr(&p->arrs);
+	// The variables of active loops no longer exist, so their NEXT can't be used
+	uint_fast16_t count = 0;
+	for (uint_fast16_t i = 0; i < p->calls.stack_i; ++i){
+		if (p->calls.entry[i].type != CALL_FOR){
+			p->calls.entry[count++] = p->calls.entry[i];
+		}
+	}
+	p->calls.stack_i = count;
+}
+
+/// The string of MEM$ can't belong to a variable, so it is swapped as a copy.
+static bool unshare_mem(struct ptc* p, struct stack_entry* e){
+	struct string** var = e->value.ptr;
+	if (!(e->type & VAR_STRING) || *var != &p->res.mem_str){
+		return true;
+	}
+	struct string* copy = get_new_str(&p->strs);
+	if (!copy){
+		return false;
+	}
+	str_copy(*var, copy);
+	++copy->uses;
+	*var = copy;
+	return true;
 }
 
 void cmd_swap(struct ptc* p){
@@ -11,6 +35,9 @@ void cmd_swap(struct ptc* p){
 	// Note that swap is swapping values, but those values depend on types
 	struct stack_entry* a = ARG(0);
 	struct stack_entry* b = ARG(1);
+	if (!unshare_mem(p, a) || !unshare_mem(p, b)){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	union value c;
 	memcpy(&c, a->value.ptr, sizeof(union value)); // copies from pointed-to number or string
 	memcpy(a->value.ptr, b->value.ptr, sizeof(union value));
-- 
2.43.0


From 56bc64810ea842e5a72b784030aa6cd0a76e8b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 52/82] fix: NEXT checked the variable of the innermost call
 instead of its own loop; overlong loop conditions were cut

---
 source/interpreter/flow.c   | 8 ++++++--
 source/interpreter/runner.c | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 5241e68..f7713d8 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -44,6 +44,9 @@ void cmd_for(struct ptc* p){
 	if (to_size == BC_SCAN_NOT_FOUND) {
 		ERROR(ERR_FOR_MISSING_BEGIN_LOOP);
 	}
+	if (to_size - to_start > UINT8_MAX){
+		ERROR(ERR_SYNTAX); // expressions are too long to be stored
+	}
 
 	// stores beginning of TO [STEP] expression and size of expression
 	p->calls.entry[p->calls.stack_i].address = to_start | ((to_size - to_start) << 24);
@@ -138,8 +141,9 @@ void cmd_next(struct ptc* p){
 			p->calls.entry[i] = p->calls.entry[i+1];
 		}
 	} else {
-		// loop continues, jump back to this point
-		p->exec.index = to_start;
+		// loop continues, jump back to the start of its body
+		// (the check done by BC_BEGIN_LOOP is for the top of the call stack, which may not be this loop)
+		p->exec.index = to_start + to_size + BC_INSTR_SIZE;
 	}
 	// NEXT should clear stack when done
 	p->stack.stack_i = 0;
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 64c36d8..87f21ad 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -510,7 +510,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 										v = &p->vars.vars[r->code.data[result.prev + 1] | (r->code.data[result.prev + 2] << 8) | (r->code.data[result.prev + 3] << 16)];
 									}
 									// verify variable matches
-									if (current == &v->value.number){
+									if (v && current == &v->value.number){
 										result.index += 2; // past NEXT [var]
 										break; // ignore nesting?
 									}
-- 
2.43.0


From 2cda7397be6bf4b9ff4034d9874e0813eebe5b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 53/82] fix: read-only system variables, SPREAD, SORT, DIM A()
 and incomplete FOR or ON were accepted and crashed

---
 source/interpreter/tokens.c | 84 +++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 23 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index ae9e6bb..2618749 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -111,9 +111,9 @@ const char* cmd_format[] = {
 	"N,NNN","NN,NNN,NNNN","NN,NNN","N","NNSNNN","0,N","NN",//ICONSET
 	"NS","","S,SN","0",//NEW
 	"NNS,NNSN","S","v","","","SS",//RENAME
-	"L","NNa","0","S","","NNa","NN,NNN,NNNN",//SPANGLE
+	"L","NNAa","0","S","","NNAa","NN,NNN,NNNN",//SPANGLE
 	"NNN,NNNN","NN,NNNNNN","0,N","NNNNNN,NNNNNNN","NNN","NNN","NNN,NNNN","N",//SPPAGE
-	"NN,NNN,NNNN,NNNNN,NNNNNN","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
+	"Nn,Nnn,Nnnn,Nnnnn,Nnnnnn","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
 	"Snnn",//TMREAD
 	"S", "0", // TALK, TALKSTOP
 	"NN","NN","NN","NNN","NNN", //MEMFILL
@@ -451,6 +451,17 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 	return is_valid;
 }
 
+/// Sysvars that allow assignment (and thus need validation)
+#define SYSVAR_NEEDS_VALIDATE (\
+		(1 << SYS_ICONPAGE) |\
+		(1 << SYS_ICONPMAX) |\
+		(1 << SYS_ICONPUSE) |\
+		(1 << SYS_TABSTEP) |\
+		(1 << SYS_MEM) |\
+		((uint64_t)1 << SYS_MEMSAFE)\
+	)
+
+
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
 	char stack[TOKENS_LINE_MAX]; // every token adds at most one entry
@@ -458,6 +469,12 @@ int tok_test(struct tokenizer* state){
 	int argc = 0;
 	stack[0] = 0; // Fixes undefined reads detected via -fanalyzer
 	
+	// Parts of a FOR command must appear in order: var FOR start = end TO [step STEP] loop_begin
+	enum for_state {
+		FOR_NONE, FOR_VAR, FOR_ASSIGN, FOR_TO, FOR_STEP,
+	} for_state = FOR_NONE;
+	bool is_on = false; // ON leaves its value for the GOTO or GOSUB that follows
+	
 	const char* valid; // Local used for some cases
 	bool is_valid; // Used by some cases
 	
@@ -487,7 +504,27 @@ int tok_test(struct tokenizer* state){
 				u8 cmd = state->tokens[i].cmd;
 				if (cmd == CMD_DATA) break; // parsing is done
 				const char* valid = cmd_format[cmd];
-				if (!check_cmd(stack, stack_i, valid)){
+				bool flow_ok = true;
+				if (cmd == CMD_FOR){
+					flow_ok = for_state == FOR_NONE && stack_i == 1 && stack[0] == 'n' && i
+						&& state->tokens[i-1].type != sysvar;
+					for_state = FOR_VAR;
+				} else if (cmd == CMD_TO){
+					flow_ok = for_state == FOR_ASSIGN && stack_i == 1 && check_cmd(stack, 1, "N");
+					for_state = FOR_TO;
+				} else if (cmd == CMD_STEP){
+					flow_ok = for_state == FOR_TO && stack_i == 2 && check_cmd(stack, 2, "NN");
+					for_state = FOR_STEP;
+				} else if (for_state != FOR_NONE){
+					flow_ok = false; // FOR is incomplete
+				}
+				bool is_jump = cmd == CMD_GOTO || cmd == CMD_GOSUB;
+				if (is_on != is_jump){
+					// ON without a jump, or a jump to one label
+					flow_ok = flow_ok && !is_on && (!is_jump || (stack_i && stack[0] != '<'));
+				}
+				is_on = cmd == CMD_ON;
+				if (!flow_ok || !check_cmd(stack, stack_i, valid)){
 					// Set error state on invalid command
 					print_token(state, state->tokens[i]);
 					iprintf("Stack: %d %.*s\n", stack_i, stack_i, stack);
@@ -538,6 +575,10 @@ int tok_test(struct tokenizer* state){
 						stack[stack_i++] = 'N';  //any unary op returns number
 					}
 				}
+				if (for_state != FOR_NONE && state->tokens[i].cmd == OP_ASSIGN){
+					is_valid = is_valid && for_state == FOR_VAR && !stack_i;
+					for_state = FOR_ASSIGN;
+				}
 				if (!is_valid){
 					// Set error state on invalid command
 					print_token(state, state->tokens[i]);
@@ -592,11 +633,10 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case dim_arr:
-				if (argc){
+				if (!argc || argc > stack_i){
+					return ERR_TEST_ARRAY; // an index is missing
+				} else {
 					// process argc counts first
-					if (argc > stack_i){
-						return ERR_TEST_ARRAY; // an index is missing
-					}
 					const char* dim_valid = "N,NN";
 					is_valid = check_cmd(&stack[stack_i-argc], argc, dim_valid);
 					if (!is_valid){
@@ -613,12 +653,13 @@ int tok_test(struct tokenizer* state){
 			case sysvar:
 				{
 				u8 id = state->tokens[i].cmd;
-				if (id == SYS_TIME || id == SYS_DATE || id == SYS_PRGNAME
-					|| id == SYS_PACKAGE || id == SYS_MEM){
-						stack[stack_i++] = 's';
-					} else {
-						stack[stack_i++] = 'n';
-					}
+				bool is_str = id == SYS_TIME || id == SYS_DATE || id == SYS_PRGNAME
+					|| id == SYS_PACKAGE || id == SYS_MEM;
+				if (((uint64_t)1 << id) & SYSVAR_NEEDS_VALIDATE){
+					stack[stack_i++] = is_str ? 's' : 'n';
+				} else {
+					stack[stack_i++] = is_str ? 'S' : 'N'; // read-only
+				}
 				}
 				break;
 				
@@ -636,6 +677,11 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case loop_begin:
+				if (!(for_state == FOR_TO && stack_i == 1 && check_cmd(stack, 1, "N"))
+						&& !(for_state == FOR_STEP && stack_i == 2 && check_cmd(stack, 2, "NN"))){
+					return ERR_TEST_COMMAND;
+				}
+				for_state = FOR_NONE;
 				stack_i = 0; // consumes stack elements
 				break;
 				
@@ -645,6 +691,8 @@ int tok_test(struct tokenizer* state){
 		}
 	}
 	
+	if (for_state != FOR_NONE || is_on)
+		return ERR_TEST_COMMAND;
 	if (stack_i)
 		return ERR_TEST_STACK;
 	return ERR_NONE;
@@ -748,16 +796,6 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 	// End of DATA special rules
 }
 
-/// Sysvars that allow assignment (and thus need validation)
-#define SYSVAR_NEEDS_VALIDATE (\
-		(1 << SYS_ICONPAGE) |\
-		(1 << SYS_ICONPMAX) |\
-		(1 << SYS_ICONPUSE) |\
-		(1 << SYS_TABSTEP) |\
-		(1 << SYS_MEM) |\
-		((uint64_t)1 << SYS_MEMSAFE)\
-	)
-
 /// Writes the checks of the sysvars used so far.
 /// This must be placed after the assignment or command that changes them.
 static void tok_sys_validate(uint64_t* sys_validate, char* data, idx* size){
-- 
2.43.0


From 41c9038357426558e92fce3c7916ef7fef2ac1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 54/82] fix: unclosed parentheses and comments after a command
 crashed

---
 source/interpreter/tokens.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 2618749..ae9b630 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1130,6 +1130,9 @@ int tok_eval(struct tokenizer* state){
 		} else if (state->tokens[i].type == command || prio > 0){
 			// operator, function or command
 			if (state->tokens[i].type == command){
+				if (e.argc_i){
+					return ERR_SYNTAX; // parentheses are still open
+				}
 				// These are all of the special cases
 				// (many are flow control commands with unique parsing needs)
 				if (state->tokens[i].cmd == CMD_DIM){
@@ -1181,6 +1184,7 @@ int tok_eval(struct tokenizer* state){
 					// needs to be kept to the newline/end of FOR/TO/STEP command
 					// including through other commands TO and STEP
 					if (is_for && state->tokens[i].cmd != CMD_TO && state->tokens[i].cmd != CMD_STEP) {
+						tok_eval_clean_stack(&e, 0); // TO or STEP
 						e.result[e.result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
 						is_for = false;
 					}
@@ -1211,7 +1215,11 @@ int tok_eval(struct tokenizer* state){
 				e.op_stack[e.op_i++] = &state->tokens[i];
 			else
 				e.argc_stack[e.argc_i]++;
-		} else if (state->tokens[i].type == newline){ 
+		} else if (state->tokens[i].type == newline || state->tokens[i].type == comment){
+			// comments end a statement in the same way and are not kept
+			if (e.argc_i){
+				return ERR_SYNTAX; // parentheses are still open
+			}
 			// dim ends
 			tok_eval_clean_stack(&e, 0);
 			is_dim = false;
-- 
2.43.0


From 775ca2f01a48121f68bcccfebcaa6b8a1b66a70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 55/82] fix: a last line without line end, overlong DATA and
 programs too large when compiled overran buffers; labels of EDITOR.PTC were
 miscounted

---
 source/interpreter/program.c | 13 +++---
 source/interpreter/tokens.c  | 84 +++++++++++++++++++++++++++---------
 source/interpreter/tokens.h  |  4 ++
 source/system.c              |  9 ++--
 4 files changed, 80 insertions(+), 30 deletions(-)

diff --git a/source/interpreter/program.c b/source/interpreter/program.c
index 2dc780f..2b08cda 100644
--- a/source/interpreter/program.c
+++ b/source/interpreter/program.c
@@ -44,7 +44,7 @@ struct bytecode init_bytecode_size(int size, int lines, int labels){
 	};
 	assert(bc.data);
 	assert(bc.line_length);
-	assert(bc.labels.entry || !labels);
+	assert(bc.labels.entry);
 	return bc;
 }
 
@@ -62,13 +62,16 @@ struct bytecode_params calc_min_bytecode(struct program* p){
 		if (p->data[i] == '\r'){
 			++params.lines;
 			first_of_line = true;
-		} else if (first_of_line && p->data[i] == '@'){
-			// Count labels (only definable at beginning of line)
-			++params.labels;
-		} else if (p->data[i] != ' '){
+		} else if (first_of_line && p->data[i] != ' '){
+			// Count lines that may define a label, with @ or LABEL
+			if (p->data[i] == '@' || p->data[i] == 'L' || p->data[i] == 'l'){
+				++params.labels;
+			}
 			first_of_line = false;
 		}
 	}
+	++params.lines; // the last line may lack its line end
+	if (!params.labels) params.labels = 1;
 	// determine necessary labels size
 	params.labels--;
 	params.labels |= params.labels >> 16;
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index ae9b630..ee4bff6 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -11,6 +11,7 @@
 
 #include <stdio.h>
 #include <stdint.h>
+#include <limits.h>
 #include <string.h>
 #include <assert.h>
 #include <stddef.h>
@@ -224,6 +225,11 @@ int tokenize(struct program* src, struct bytecode* out){
 }
 
 int tokenize_full(struct program* src, struct bytecode* out, void* system, int opts){
+	return tokenize_sized(src, out, system, opts, INT_MAX);
+}
+
+/// @param capacity Size of the bytecode buffer
+int tokenize_sized(struct program* src, struct bytecode* out, void* system, int opts, int capacity){
 	struct tokenizer state = {0};
 	state.source = src;
 	state.output = out;
@@ -249,8 +255,18 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 	out->size = 0;
 	reset_label(&out->labels);
 	int old_cursor;
-	while (state.cursor < state.source->size){
+	// The last line may lack its line end
+	while (state.cursor < state.source->size || state.token_i){
 		old_cursor = state.cursor;
+		if (!state.token_i && !state.is_comment){
+			state.line_start = state.cursor;
+		}
+		// A token is never larger than this in addition to the characters it contains
+		idx max_size = (state.token_i + 2) * 8 + state.cursor - state.line_start;
+		if (out->size + max_size > (idx)capacity){
+			error = ERR_OUT_OF_MEMORY; // program is too large when compiled
+			break;
+		}
 		// Every step adds at most one token, tok_eval may add one more per line
 		error = state.token_i < TOKENS_LINE_MAX-1 ? tok_none(&state) : ERR_SYNTAX;
 		if (error != ERR_NONE){
@@ -259,6 +275,7 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			state.output->data[state.output->size++] = error;
 			iprintf("Error at: %d\n", (int)state.output->size);
 			while (state.cursor < state.source->size && state.source->data[state.cursor++] != '\r');
+			state.is_comment = false;
 			error = ERR_NONE;
 			state.token_i = 0;
 			continue;
@@ -282,7 +299,7 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 	}
 	if (error) {
 		if (system){
-			int line_view = state.cursor - old_cursor;
+			int line_view = (state.cursor < state.source->size ? state.cursor : state.source->size) - old_cursor;
 			line_view = line_view > 31 ? 31 : line_view;
 			memcpy(state.system->exec.error_info, &state.source->data[old_cursor], line_view);
 			state.system->exec.error_info[line_view] = '\0';
@@ -533,7 +550,7 @@ int tok_test(struct tokenizer* state){
 				// relies on variable carrying through...
 				// FOR: for assignment
 				// TO: for BC_BEGIN_LOOP
-				if (cmd != CMD_FOR && cmd != CMD_TO){
+				if (cmd != CMD_FOR && cmd != CMD_TO && cmd != CMD_STEP){
 					stack_i = 0;
 				}
 				}
@@ -730,7 +747,7 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 		BC_DATA_WAIT_NEXT,
 	} data_state = BC_DATA_NONE;
 	for (int j = start; j < end; ++j){
-		char c = state->source->data[j];
+		char c = j < (int)state->source->size ? state->source->data[j] : '\r';
 
 		switch (data_state){
 			case BC_DATA_NONE:
@@ -782,6 +799,10 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 				break;
 		}
 
+		if ((u8)*data_size == UINT8_MAX){
+			*size = data_size - data - 1; // too long: discard
+			return ERR_STRING_TOO_LONG;
+		}
 		// Add character to output
 		data[(*size)++] = c;
 		(*data_size)++;
@@ -821,7 +842,8 @@ int tok_code(struct tokenizer* state){
 				bool first_of_line = state->tokens[i].type == first_of_line_command;
 				state->tokens[i].type = command;
 				if (state->tokens[i].cmd == CMD_DATA){
-					tok_data(state, state->tokens[i], data, size);
+					int data_res = tok_data(state, state->tokens[i], data, size);
+					if (data_res != ERR_NONE) return data_res;
 				} else {
 					// convert token to command
 					// IF and ON look at the instruction that follows them
@@ -1072,6 +1094,9 @@ int tok_eval(struct tokenizer* state){
 		int op = state->tokens[i].cmd;
 		iprintf("[tok_eval]");
 		print_token(state, state->tokens[i]);
+		if (e.result_i + e.op_i > TOKENS_LINE_MAX-2){
+			return ERR_SYNTAX; // no space for this token and a loop_begin
+		}
 		
 		if (state->tokens[i].type == operation && prio % 8 == 0) {
 			// operation of prio 0: ( ) [ ] =
@@ -1345,6 +1370,11 @@ void tok_prio(struct tokenizer* state){
 	}
 }
 
+/// Reads the character at the cursor. The end of the source ends the line.
+static char tok_peek(struct tokenizer* state){
+	return state->cursor < state->source->size ? state->source->data[state->cursor] : '\r';
+}
+
 //only needed for operations and a few others
 void tok_single(struct tokenizer* state, enum type type){
 	state->tokens[state->token_i].type = type;
@@ -1364,7 +1394,7 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 			state->tokens[state->token_i].len++;
 		}
 		state->cursor++;
-		c = state->source->data[state->cursor];
+		c = tok_peek(state);
 	} while (condition(c));
 }
 
@@ -1372,7 +1402,7 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 int tok_none(struct tokenizer* state){
 	// This state represents: Whitespace and default state
 	// This state can transition to:
-	char c = state->source->data[state->cursor];
+	char c = tok_peek(state);
 	
 	if (c == '\r'){
 		tok_single(state, newline);
@@ -1406,7 +1436,14 @@ int tok_none(struct tokenizer* state){
 			return ERR_STRING_TOO_LONG; // len can't hold this
 		}
 	} else if (c == '&') {
+		char base = state->cursor + 1 < state->source->size ? state->source->data[state->cursor + 1] : '\r';
+		if (base != 'H' && base != 'B'){
+			return ERR_SYNTAX;
+		}
 		tok_base_number(state);
+		if (state->tokens[state->token_i-1].len == 2){
+			return ERR_SYNTAX; // number has no digits
+		}
 	} else if (is_number(c) || c == '.') {
 		tok_number(state);
 	} else if (c == ',' || c == ';' || c == '+' || c == '-' || c == '*' || c == '/' || c == '%' ||
@@ -1416,13 +1453,16 @@ int tok_none(struct tokenizer* state){
 	} else if (c == '<' || c == '=' || c == '>' || c == '!'){
 		tok_single(state, operation);
 		// check for <= == >= !=
-		if (state->source->data[state->cursor] == '='){
+		if (tok_peek(state) == '='){
 			state->tokens[state->token_i - 1].len++;
 			state->cursor++;
 		}
 		state->tokens[state->token_i-1].cmd = tok_in_str_index(bc_conv_operations, state->source->data, &state->tokens[state->token_i-1]);
 	} else if (c == '@'){
 		state->cursor++;
+		if (!is_name(tok_peek(state))){
+			return ERR_SYNTAX; // label has no name
+		}
 		tok_with_condition(state, is_name);
 		if (state->tokens[state->token_i].len > 16){
 			return ERR_LABEL_TOO_LONG;
@@ -1441,13 +1481,13 @@ int tok_none(struct tokenizer* state){
 }
 
 int tok_label(struct tokenizer* state){
-	if (state->source->data[state->cursor++] != ' '){
+	if (tok_peek(state) != ' '){
 			return ERR_SYNTAX;
 		}
-		while (state->source->data[state->cursor] == ' '){
+		while (tok_peek(state) == ' '){
 			state->cursor++;
 		}
-		if (!is_name(state->source->data[state->cursor])){
+		if (!is_name(tok_peek(state))){
 			return ERR_SYNTAX;
 		}
 		tok_with_condition(state, is_name);
@@ -1499,19 +1539,18 @@ int tok_name(struct tokenizer* state){
 
 void tok_string(struct tokenizer* state){
 //	iprintf("Entered string %d\n", state->cursor);
-	if (state->source->data[state->cursor] == '"'){
+	if (tok_peek(state) == '"'){
 		state->cursor++;
 	}
 	
 	state->tokens[state->token_i].type = string;
 	state->tokens[state->token_i].len = 0;
 	state->tokens[state->token_i].ofs = state->cursor;
-	while (state->source->data[state->cursor] != '"' &&
-			state->source->data[state->cursor] != '\r'){
+	while (tok_peek(state) != '"' && tok_peek(state) != '\r'){
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	}
-	if (state->source->data[state->cursor] == '"'){
+	if (tok_peek(state) == '"'){
 		state->cursor++;
 	}
 	state->token_i++;
@@ -1523,11 +1562,12 @@ void tok_base_number(struct tokenizer* state){
 	state->tokens[state->token_i].len = 2;
 	state->tokens[state->token_i].ofs = state->cursor;
 	state->cursor += 2;
-	do {
-		state->tokens[state->token_i].len++;
+	while (is_number(tok_peek(state)) || (tok_peek(state) >= 'A' && tok_peek(state) <= 'F')){
+		if (state->tokens[state->token_i].len < UINT8_MAX){
+			state->tokens[state->token_i].len++;
+		}
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor])
-	         || (state->source->data[state->cursor] >= 'A' && state->source->data[state->cursor] <= 'F'));
+	}
 	state->token_i++;
 }
 
@@ -1536,9 +1576,11 @@ void tok_number(struct tokenizer* state){
 	state->tokens[state->token_i].len = 0;
 	state->tokens[state->token_i].ofs = state->cursor;
 	do {
-		state->tokens[state->token_i].len++;
+		if (state->tokens[state->token_i].len < UINT8_MAX){
+			state->tokens[state->token_i].len++;
+		}
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor]) || state->source->data[state->cursor] == '.');
+	} while (is_number(tok_peek(state)) || tok_peek(state) == '.');
 	state->token_i++;
 }
 
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 4571232..a1e0acf 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -98,6 +98,8 @@ struct tokenizer {
 	struct token tokens[TOKENS_LINE_MAX]; //max possible per line
 	// Current token index
 	uint_fast8_t token_i;
+	// Position of the first character of the current line
+	idx line_start;
 	// Flag to indicate a comment is being parsed
 	bool is_comment;
 	
@@ -119,6 +121,8 @@ int tokenize(struct program* src, struct bytecode* output);
 
 int tokenize_full(struct program* src, struct bytecode* output, void* system, int opts);
 
+int tokenize_sized(struct program* src, struct bytecode* output, void* system, int opts, int capacity);
+
 int tok_none(struct tokenizer* state);
 
 int tok_name(struct tokenizer* state);
diff --git a/source/system.c b/source/system.c
index a59ec29..ba59945 100644
--- a/source/system.c
+++ b/source/system.c
@@ -338,13 +338,13 @@ void system_debug(struct ptc* p, enum launch_debug debug){
 
 /// Tokenizes and executes the program using the current system and options.
 ///
-/// Note that this clears the error code and call stack.
+/// Note that this clears the error code and call stack. The buffer of `bc` must have MAX_SOURCE_SIZE bytes.
 ///
 /// @return Error code of execution
 int token_and_run(struct ptc* p, struct program* prg, struct bytecode* bc, int tokopts){
 	p->exec.error = ERR_NONE;
 	p->calls.stack_i = 0;
-	p->exec.error = tokenize_full(prg, bc, p, tokopts);
+	p->exec.error = tokenize_sized(prg, bc, p, tokopts, MAX_SOURCE_SIZE);
 	if (p->exec.error == ERR_NONE){
 		run(*bc, p);
 	}
@@ -379,8 +379,9 @@ int launch_system(void* launch_info){
 	// Reduce memory fragmentation by loading program into existing memory
 	load_prg(&p->exec.prg, "programs/EDITOR.PTC"); // TODO:CODE:MED move EDITOR to resources
 	struct bytecode_params params = calc_min_bytecode(&p->exec.prg);
-	struct bytecode editor_bc = init_bytecode_size(2 * p->exec.prg.size, params.lines, params.labels);
-	tokenize_full(&p->exec.prg, &editor_bc, p, TOKOPT_VARIABLE_IDS);
+	int editor_size = 2 * p->exec.prg.size + 1024;
+	struct bytecode editor_bc = init_bytecode_size(editor_size, params.lines, params.labels);
+	tokenize_sized(&p->exec.prg, &editor_bc, p, TOKOPT_VARIABLE_IDS, editor_size);
 
 	// Setup complete
 	con_puts(&p->console, "S\45Small BASIC Computer            READY");
-- 
2.43.0


From 629066f46810375462fd7a1beec8ec3b4f1d6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:35 +0000
Subject: [PATCH 56/82] fix: the debug output of a token read past the end of
 the source

---
 source/interpreter/tokens.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index ee4bff6..1b1e841 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -192,7 +192,8 @@ void print_token(struct tokenizer* state, struct token t){
 		} else {
 			iprintf("        ");
 		}
-		for (size_t c = 0; c < t.len; ++c){
+		// arg_count and loop_begin tokens have a len unrelated to the source
+		for (size_t c = 0; c < t.len && t.ofs + c < state->source->size; ++c){
 			char ch = state->source->data[t.ofs + c];
 			if (ch == '\r'){
 				iprintf("\\r");
-- 
2.43.0


From 5a45621ebecb1d6d8f1b641d75bf19c581929b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 57/82] fix: CHRSET accepted G as a hexadecimal digit

---
 source/subsystem/resources.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index b59b60e..7965938 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -1013,7 +1013,7 @@ void cmd_chrset(struct ptc* p){
 		for (int i = 0; i < 32; ++i){
 			u8 ul = digit_value(str_at_wide(data, 2*i));
 			u8 uh = digit_value(str_at_wide(data, 2*i+1));
-			if (ul > 16 || uh > 16){ // out of valid range
+			if (ul > 15 || uh > 15){ // out of valid range
 				ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 			}
 			u8 unit = (uh << 4) | ul;
-- 
2.43.0


From 3610fc4be0d7e6ce249634959c1b69e23c79d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 58/82] fix: COLINIT read outside an empty name and used
 unloaded colors

---
 source/subsystem/resources.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 7965938..a654161 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -1048,6 +1048,9 @@ void cmd_colinit(struct ptc* p){
 	} else {
 		// COLINIT resource
 		void* res_str = value_str(ARG(0));
+		u8* col_data = get_col_resource(p, res_str);
+		if (!col_data) return; // not a valid color resource (which is never empty)
+
 		char id = str_at_char(res_str, 0);
 		if (id == 'B') id = '0';
 		if (id == 'S') id = '1';
@@ -1056,19 +1059,17 @@ void cmd_colinit(struct ptc* p){
 		char name[] = "COLX";
 		name[3] = id;
 
-		u8* col_data = get_col_resource(p, res_str);
-		if (!col_data) return; // TODO:ERR:LOW can this happen?
-
 		if (p->stack.stack_i == 1){
 			load_col(col_data, resource_path, name);
 		} else {
 			static_assert(LITTLE_ENDIAN, "load from file requires this");
 			u16 from_file[256]; // TODO:PERF:LOW loading entire file is slow, store it in-mem?
-			load_col((u8*)from_file, resource_path, name);
+			bool loaded = load_col((u8*)from_file, resource_path, name);
 
 			int index;
 			STACK_INT_RANGE(1,0,255,index);
-			((u16*)col_data)[index] = from_file[index];
+			// if the file can't be loaded the color is kept, like all of them above
+			if (loaded) ((u16*)col_data)[index] = from_file[index];
 		}
 	}
 	// needed for any combination
-- 
2.43.0


From f4c1a5c54f5d15dbed335acb7fc3fa604372a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 59/82] fix: BGCOPY wrote tiles outside of the layer

---
 source/subsystem/background.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index 7a8b1d8..e4e1546 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -322,6 +322,10 @@ void cmd_bgcopy(struct ptc* p){
 		y2 = temp;
 	}
 	
+	// only tiles that are copied to a position on the layer matter
+	if (x2 - x1 + x3 > BG_WIDTH-1) { x2 = BG_WIDTH-1 - x3 + x1; }
+	if (y2 - y1 + y3 > BG_HEIGHT-1) { y2 = BG_HEIGHT-1 - y3 + y1; }
+	
 	// valid args: put tile
 	u16* bg = bg_page(p, p->background.page, layer);
 	
-- 
2.43.0


From cfcfe50e2f7d8491b9a2da00a8db97f9bca99648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 60/82] fix: GPAGE changed the page before checking all
 arguments

---
 source/subsystem/graphics.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index ab292b6..af6c0d7 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -27,9 +27,14 @@ void cmd_gpage(struct ptc* p){
 	if (p->stack.stack_i == 1){
 		STACK_INT_RANGE(0,0,1,p->graphics.screen);
 	} else {
-		STACK_INT_RANGE(0,0,1,p->graphics.screen);
-		STACK_INT_RANGE(1,0,3,p->graphics.info[p->graphics.screen].drawpage);
-		STACK_INT_RANGE(2,0,3,p->graphics.info[p->graphics.screen].displaypage);
+		int screen, drawpage, displaypage;
+		STACK_INT_RANGE(0,0,1,screen);
+		STACK_INT_RANGE(1,0,3,drawpage);
+		STACK_INT_RANGE(2,0,3,displaypage);
+		// nothing is changed unless everything is valid
+		p->graphics.screen = screen;
+		p->graphics.info[screen].drawpage = drawpage;
+		p->graphics.info[screen].displaypage = displaypage;
 	}
 }
 
-- 
2.43.0


From c04354e5f45de1ac4451b2126cddd1d65614f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 61/82] fix: GFILL and GBOX drew nothing with the corners in
 reverse order

---
 source/subsystem/graphics.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index af6c0d7..5f353ac 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -71,6 +71,18 @@ void cmd_gfill(struct ptc* p){
 	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
 	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
 	
+	// either corner can be given first
+	if (x1 > x2){
+		int temp = x1;
+		x1 = x2;
+		x2 = temp;
+	}
+	if (y1 > y2){
+		int temp = y1;
+		y1 = y2;
+		y2 = temp;
+	}
+	
 	if (p->stack.stack_i == 5){
 		STACK_INT_RANGE(4,0,255,color);
 	} else {
@@ -99,6 +111,18 @@ void cmd_gbox(struct ptc* p){
 	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
 	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
 	
+	// either corner can be given first
+	if (x1 > x2){
+		int temp = x1;
+		x1 = x2;
+		x2 = temp;
+	}
+	if (y1 > y2){
+		int temp = y1;
+		y1 = y2;
+		y2 = temp;
+	}
+	
 	if (p->stack.stack_i == 5){
 		int c = STACK_INT(4);
 		if (c > 255 || c < 0){
-- 
2.43.0


From 45648362adf51de2677c167409b70fa1d1815a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 62/82] fix: characters or colors changed while drawing could
 stay out of date

---
 source/graphics/pc/display_pc.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/source/graphics/pc/display_pc.c b/source/graphics/pc/display_pc.c
index 2394bc9..8e612c4 100644
--- a/source/graphics/pc/display_pc.c
+++ b/source/graphics/pc/display_pc.c
@@ -146,37 +146,39 @@ void display_draw_all(struct ptc* p){
 	
 	sfRenderWindow_clear(d->rw, sfBlack);
 	
+	// The flags are cleared first, so that a change made by the program while a
+	// texture is generated is not lost.
 	// TODO:PERF:MED Reuse texture memory instead of destroying and regenerating
 	for (int page = 0; page <= 1; ++page){
 		if (r->regen_chr[0 + CHR_BANKS * page] || r->regen_chr[1 + CHR_BANKS * page]){
-			sfTexture_destroy(d->chr_tex[0+5*page]);
-			d->chr_tex[0+5*page] = gen_chr_texture(r->chr[0+CHR_BANKS*page], 512); //BGF
 			r->regen_chr[0 + CHR_BANKS * page] = false;
 			r->regen_chr[1 + CHR_BANKS * page] = false;
+			sfTexture_destroy(d->chr_tex[0+5*page]);
+			d->chr_tex[0+5*page] = gen_chr_texture(r->chr[0+CHR_BANKS*page], 512); //BGF
 		}
 		if (r->regen_chr[4 + CHR_BANKS * page] ||
 			r->regen_chr[5 + CHR_BANKS * page] ||
 			r->regen_chr[6 + CHR_BANKS * page] ||
 			r->regen_chr[7 + CHR_BANKS * page])
 		{
-			sfTexture_destroy(d->chr_tex[1+5*page]);
-			d->chr_tex[1+5*page] = gen_chr_texture(r->chr[4+CHR_BANKS*page], 1024); //BGD
 			r->regen_chr[4 + CHR_BANKS * page] = false;
 			r->regen_chr[5 + CHR_BANKS * page] = false;
 			r->regen_chr[6 + CHR_BANKS * page] = false;
 			r->regen_chr[7 + CHR_BANKS * page] = false;
+			sfTexture_destroy(d->chr_tex[1+5*page]);
+			d->chr_tex[1+5*page] = gen_chr_texture(r->chr[4+CHR_BANKS*page], 1024); //BGD
 		}
 		if (r->regen_chr[8 + CHR_BANKS * page] ||
 			r->regen_chr[9 + CHR_BANKS * page] ||
 			r->regen_chr[10 + CHR_BANKS * page] ||
 			r->regen_chr[11 + CHR_BANKS * page])
 		{
-			sfTexture_destroy(d->chr_tex[2+5*page]);
-			d->chr_tex[2+5*page] = gen_chr_texture(r->chr[8+CHR_BANKS*page], 1024); //BGU
 			r->regen_chr[8 + CHR_BANKS * page] = false;
 			r->regen_chr[9 + CHR_BANKS * page] = false;
 			r->regen_chr[10 + CHR_BANKS * page] = false;
 			r->regen_chr[11 + CHR_BANKS * page] = false;
+			sfTexture_destroy(d->chr_tex[2+5*page]);
+			d->chr_tex[2+5*page] = gen_chr_texture(r->chr[8+CHR_BANKS*page], 1024); //BGU
 		}
 		if (r->regen_chr[12 + CHR_BANKS * page] ||
 			r->regen_chr[13 + CHR_BANKS * page] ||
@@ -187,8 +189,6 @@ void display_draw_all(struct ptc* p){
 			r->regen_chr[18 + CHR_BANKS * page] ||
 			r->regen_chr[19 + CHR_BANKS * page])
 		{
-			sfTexture_destroy(d->chr_tex[3+5*page]);
-			d->chr_tex[3+5*page] = gen_chr_texture(r->chr[12+CHR_BANKS*page], 2048); // SPU or SPD
 			r->regen_chr[12 + CHR_BANKS * page] = false;
 			r->regen_chr[13 + CHR_BANKS * page] = false;
 			r->regen_chr[14 + CHR_BANKS * page] = false;
@@ -197,21 +197,23 @@ void display_draw_all(struct ptc* p){
 			r->regen_chr[17 + CHR_BANKS * page] = false;
 			r->regen_chr[18 + CHR_BANKS * page] = false;
 			r->regen_chr[19 + CHR_BANKS * page] = false;
+			sfTexture_destroy(d->chr_tex[3+5*page]);
+			d->chr_tex[3+5*page] = gen_chr_texture(r->chr[12+CHR_BANKS*page], 2048); // SPU or SPD
 		}
 		if (r->regen_chr[20 + CHR_BANKS * page] ||
 			r->regen_chr[21 + CHR_BANKS * page])
 		{
-			sfTexture_destroy(d->chr_tex[4+5*page]);
-			d->chr_tex[4+5*page] = gen_chr_texture(r->chr[20+CHR_BANKS*page], 512); //SPS
 			r->regen_chr[20 + CHR_BANKS * page] = false;
 			r->regen_chr[21 + CHR_BANKS * page] = false;
+			sfTexture_destroy(d->chr_tex[4+5*page]);
+			d->chr_tex[4+5*page] = gen_chr_texture(r->chr[20+CHR_BANKS*page], 512); //SPS
 		}
 	}
 	
 	if (r->regen_col){
+		r->regen_col = false;
 		sfTexture_destroy(d->col_tex);
 		d->col_tex = gen_col_texture(r->col_banks);
-		r->regen_col = false;
 	}
 	
 	sfShader_setTextureUniform(shader, "colors", d->col_tex);
-- 
2.43.0


From 1ce6b83ce5e843788fc83ae0fc7d991299fbc5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:20 +0000
Subject: [PATCH 63/82] fix: the panel background did not always belong to the
 panel type

---
 source/subsystem/console.c | 1 +
 source/subsystem/panel.c   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index f862360..ae04156 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -291,6 +291,7 @@ u16* shared_input(struct ptc* p){
 		p->console.x = out_index;
 	} while (!check_interrupt(p) && !(buttons & BUTTON_A));
 	p->panel.type = old_panel;
+	if (old_panel < PNL_KYA) set_panel_bg(p, old_panel);
 	p->console.cursor_visible = false;
 	return output;
 }
diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 5fd95e6..abbb187 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -182,7 +182,7 @@ void cmd_pnltype(struct ptc* p){
 		ERROR(ERR_INVALID_ARGUMENT_VALUE);
 	}
 	if (old_type != p->panel.type){
-		if ((old_type >= PNL_KYA) != (p->panel.type >= PNL_KYA))
+		if (old_type < PNL_KYA || p->panel.type < PNL_KYA)
 			set_panel_bg(p, p->panel.type);
 	}
 }
-- 
2.43.0


From 3cab05838915cfa77c024228dd156279be7836f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 64/82] fix: the keyboard showed other characters than it typed
 after PNLTYPE or INPUT

---
 source/subsystem/console.c |  3 +--
 source/subsystem/panel.c   | 21 ++++++++++++++++-----
 source/subsystem/panel.h   |  2 ++
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index ae04156..99f998d 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -260,8 +260,7 @@ u16* shared_input(struct ptc* p){
 		// TODO:IMPL:LOW Pressing L+R inverts the selection again for the duration held.
 		// it should keep the shift state.
 		if (buttons & (BUTTON_L | BUTTON_R)){
-			p->panel.shift ^= PNL_SHIFT;
-			refresh_panel(p);
+			p->panel.shift ^= PNL_SHIFT; // shown by the next press_key
 		}
 		if (keyboard == 15 || (buttons & BUTTON_Y)){
 			// Copy characters back
diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index abbb187..3bc6c87 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -122,6 +122,7 @@ void init_panel(struct ptc* p){
 	p->panel.text = alloc_console();
 	p->panel.keys_text = alloc_console();
 	p->panel.shift = 0;
+	p->panel.key_chr_shown = 0;
 	p->panel.cursor = PNL_INSERT;
 	p->panel.last_key = 0;
 	p->panel.key_count = 0;
@@ -338,8 +339,21 @@ static int key_at(struct panel* p, int x, int y){
 	return c == '\xff' ? -1 : c;
 }
 
+// The characters (a pair of key_chr) that belong to the current keyboard.
+static int key_chr_index(struct panel* p){
+	// the program can change the type at any time, including to one without keys
+	enum pnltype type = *(volatile enum pnltype*)&p->type;
+	if (type == PNL_OFF || type == PNL_PNL) return p->key_chr_shown;
+	int shift = !!(p->shift & PNL_SHIFT) ^ !!(p->shift & PNL_CAPS_LOCK);
+	return 2 * (type - PNL_KYA) + shift;
+}
+
 void press_key(struct ptc* ptc, bool t, int x, int y){
 	struct panel* p = &ptc->panel;
+	// PNLTYPE, INPUT and the shift buttons change the keyboard as well
+	if (key_chr_index(p) != p->key_chr_shown){
+		refresh_panel(ptc);
+	}
 	if (!t){
 		p->key_pressed = 0;
 		p->id_pressed = -1;
@@ -437,11 +451,8 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 
 void refresh_panel(struct ptc* ptc){
 	struct panel* p = &ptc->panel;
-	// the program can change the type at any time, including to one without keys
-	enum pnltype type = *(volatile enum pnltype*)&p->type;
-	if (type == PNL_OFF || type == PNL_PNL) return;
-	int shift = !!(p->shift & PNL_SHIFT) ^ !!(p->shift & PNL_CAPS_LOCK);
-	int source_key_chr = (2 * (type - PNL_KYA) + shift) * 2;
+	p->key_chr_shown = key_chr_index(p);
+	int source_key_chr = p->key_chr_shown * 2;
 	memcpy(ptc->res.chr[18+CHR_BANKS], ptc->res.key_chr[source_key_chr], CHR_SIZE);
 	memcpy(ptc->res.chr[19+CHR_BANKS], ptc->res.key_chr[source_key_chr + 1], CHR_SIZE);
 	
diff --git a/source/subsystem/panel.h b/source/subsystem/panel.h
index 48966f7..aeabf76 100644
--- a/source/subsystem/panel.h
+++ b/source/subsystem/panel.h
@@ -67,6 +67,8 @@ struct panel {
 	/// Value indicating the status of the SHIFT key and the caps lock key
 	/// of the virtual keyboard.
 	int shift;
+	/// The keyboard characters currently shown (0-5: type and shift state)
+	int key_chr_shown;
 	/// Value indicating whether text entry is in INSERT or REPLACE mode.
 	int cursor;
 
-- 
2.43.0


From f2985122eb29e781411211684178a4ff0b70b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 65/82] fix: a background scrolled to a negative offset was
 drawn one tile off

---
 source/graphics/pc/display_pc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/graphics/pc/display_pc.c b/source/graphics/pc/display_pc.c
index 8e612c4..02396f0 100644
--- a/source/graphics/pc/display_pc.c
+++ b/source/graphics/pc/display_pc.c
@@ -330,8 +330,8 @@ void display_background(struct ptc* p, int screen, int layer){
 //	sfRenderWindow_setView(d->rw, d->view);
 	// 0 - 7 -> 0
 	// tile unit to start at
-	int start_x = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].x) / 8) % BG_WIDTH;
-	int start_y = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].y) / 8) % BG_HEIGHT;
+	int start_x = (uint32_t)FP_TO_INT(p->background.ofs[screen][layer].x) / 8 % BG_WIDTH;
+	int start_y = (uint32_t)FP_TO_INT(p->background.ofs[screen][layer].y) / 8 % BG_HEIGHT;
 	// offset within tile
 	float ofs_x = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].x)) % 8;
 	float ofs_y = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].y)) % 8;
-- 
2.43.0


From b6db2ec72728d0051298e73855a8ef8903d620e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:48 +0000
Subject: [PATCH 66/82] fix: sprites at rest were checked for collision as if
 they still moved

---
 source/subsystem/sprites.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 3c40687..a2a4f1b 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -131,17 +131,22 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 		{0, 0}
 	};
 	
+	// a sprite that has arrived keeps its last step, but does not move on
 	if (!a->hit.dx && !a->hit.dy){
-		normals[2][0] = -a->pos.dy;
-		normals[2][1] = a->pos.dx;
+		if (a->pos.time >= 0){
+			normals[2][0] = -a->pos.dy;
+			normals[2][1] = a->pos.dx;
+		}
 	} else {
 		normals[2][0] = -a->hit.dy;
 		normals[2][1] = a->hit.dx;
 	}
 	
 	if (!b->hit.dx && !b->hit.dy){
-		normals[2][0] -= -b->pos.dy;
-		normals[2][1] -= b->pos.dx;
+		if (b->pos.time >= 0){
+			normals[2][0] -= -b->pos.dy;
+			normals[2][1] -= b->pos.dx;
+		}
 	} else {
 		normals[2][0] -= -b->hit.dy;
 		normals[2][1] -= b->hit.dx;
-- 
2.43.0


From b30befb5ab7e63c3f821b79cf9eede9f7be699ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:41 +0000
Subject: [PATCH 67/82] fix: SPHIT and SPHITSP could see sprites in the middle
 of their step

---
 source/subsystem/sprites.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index a2a4f1b..5ce9edd 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -462,6 +462,7 @@ void func_sphit(struct ptc* p){
 	}
 	int hit = -1;
 	struct sprite_info* this = &p->sprites.info[p->sprites.page][id];
+	lock_sprites(&p->sprites);
 	for (int i = start; i < MAX_SPRITES; ++i){
 		if (i == id) continue; // skip own sprite
 		struct sprite_info* other = &p->sprites.info[p->sprites.page][i];
@@ -477,6 +478,7 @@ void func_sphit(struct ptc* p){
 			break;
 		}
 	}
+	unlock_sprites(&p->sprites);
 
 	STACK_RETURN_INT(hit != -1);
 }
@@ -491,16 +493,17 @@ void func_sphitsp(struct ptc* p){
 	struct sprite_info* this = &p->sprites.info[p->sprites.page][id];
 	struct sprite_info* other = &p->sprites.info[p->sprites.page][other_id];
 	
-	if (is_hit(this, other)){
+	lock_sprites(&p->sprites);
+	bool hit = is_hit(this, other);
+	if (hit){
 		// TODO:IMPL:LOW interpolation form (nonzero SPHITT)
 		// See func_sphit
 		p->sprites.sphitt = 0;
 		p->sprites.sphitx = this->pos.x;
 		p->sprites.sphity = this->pos.y;
-		STACK_RETURN_INT(1);
-	} else {
-		STACK_RETURN_INT(0);
 	}
+	unlock_sprites(&p->sprites);
+	STACK_RETURN_INT(hit);
 }
 
 void cmd_spangle(struct ptc* p){
-- 
2.43.0


From 797d09c0fd29c51ac629f1423fb27906d862f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:33 +0000
Subject: [PATCH 68/82] fix: an omitted first argument was lost after another
 statement in the line

---
 source/interpreter/tokens.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 1b1e841..17d401c 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1141,11 +1141,12 @@ int tok_eval(struct tokenizer* state){
 			e.argc_stack[e.argc_i]++;
 			tok_eval_clean_stack(&e, prio);
 			if (implicit_commas){
-				// don't push commas unless they are prior to another comma or at the beginning/end of the line
+				// don't push commas unless they are prior to another comma or at the beginning/end of the arguments
 				if (state->tokens[i].cmd == OP_SEMICOLON){
 					e.result[e.result_i++] = state->tokens[i];
 				} else { // must be a comma here
-					if (!e.result_i || state->tokens[i+1].type == newline || (i>0 && state->tokens[i-1].prio % 8 == 1)){
+					bool is_first = i == 0 || state->tokens[i-1].type == command || state->tokens[i-1].type == first_of_line_command;
+					if (is_first || state->tokens[i+1].type == newline || state->tokens[i-1].prio % 8 == 1){
 						e.result[e.result_i++] = state->tokens[i];
 					}
 				}
-- 
2.43.0


From 691b7cec3643f3fe3c2db53d4dd2c202bad2c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:11 +0000
Subject: [PATCH 69/82] fix: SPSET accepted character 512, one past the last
 sprite character

---
 source/subsystem/sprites.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 5ce9edd..29866ac 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -261,7 +261,7 @@ void cmd_spset(struct ptc* p){
 	int chr;
 	int pal;
 	STACK_INT_RANGE(0, 0, 99, id);
-	STACK_INT_RANGE(1, 0, (p->sprites.page ? 117 : 512), chr);
+	STACK_INT_RANGE(1, 0, (p->sprites.page ? 117 : 511), chr);
 	STACK_INT_RANGE(2, 0, 15, pal);
 	bool horiz_flip = STACK_INT(3) != 0;
 	bool vert_flip = STACK_INT(4) != 0;
-- 
2.43.0


From 1445860f592fa8586fc1f6f1f98c8baec52a0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 70/82] fix: BUTTON and BTRIG could mix two frames

func_button and func_btrig read button, old_button and the hold times
while the display thread was half way through set_input, so a press or a
release could be reported in no frame at all. Read them under inkey_mtx,
as set_input and get_edit_buttons do.
---
 source/subsystem/input.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index a73c8ab..f940bbb 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -180,9 +180,19 @@ void func_btrig(struct ptc* p){
 	struct input* i = &p->input;
 	
 	s32 b = 0;
+#ifdef PC
+	if (mtx_lock(&i->inkey_mtx) == thrd_error){
+		ABORT("func_btrig mutex lock failure!");
+	}
+#endif
 	for (int j = 0; j < BUTTON_COUNT; ++j){
 		b |= check_pressed(i, j) << j;
 	}
+#ifdef PC
+	if (mtx_unlock(&i->inkey_mtx) == thrd_error){
+		ABORT("func_btrig mutex unlock failure!");
+	}
+#endif
 //	iprintf("button: %d\n", (int)b);
 	stack_push(&p->stack, (struct stack_entry){VAR_NUMBER, {INT_TO_FP(b)}});
 }
@@ -194,15 +204,23 @@ void func_button(struct ptc* p){
 		struct stack_entry* e = stack_pop(&p->stack);
 		mode = VALUE_INT(e);
 	}
-	int button;
+	if (mode < 0 || mode > 3){
+		ERROR(ERR_INVALID_ARGUMENT_VALUE);
+	}
+	int button = 0;
 	
+#ifdef PC
+	// all of the result has to come from the same frame
+	if (mtx_lock(&i->inkey_mtx) == thrd_error){
+		ABORT("func_button mutex lock failure!");
+	}
+#endif
 	switch (mode){
 		case 0:
 			button = i->button;
 			break;
 		
 		case 1:
-			button = 0;
 			for (int j = 0; j < BUTTON_COUNT; ++j){
 				button |= check_pressed(i, j) << j;
 			}
@@ -215,10 +233,12 @@ void func_button(struct ptc* p){
 		case 3:
 			button = ~i->button & i->old_button;
 			break;
-		
-		default:
-			ERROR(ERR_INVALID_ARGUMENT_VALUE);
 	}
+#ifdef PC
+	if (mtx_unlock(&i->inkey_mtx) == thrd_error){
+		ABORT("func_button mutex unlock failure!");
+	}
+#endif
 	
 	stack_push(&p->stack, (struct stack_entry){VAR_NUMBER, {INT_TO_FP(button)}});
 }
-- 
2.43.0


From 13baed31481254768a385968176e447e6b5363a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 71/82] fix: the typed long vowel mark and unknown kana became
 the wrong character

to_char() looked up U+30FC, the long vowel mark, in a table that has no entry
for it, so that it was typed as 0xE0 instead of 0xB0. Other characters of the
block that PTC does not have, hiragana for example, were also typed as 0xE0;
they are no PTC characters and are ignored now, like other such characters.
---
 source/interpreter/strs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index ed73896..1259322 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -380,7 +380,8 @@ int to_char(u16 w){
 		if (wl == 0xe5) return 0x5c;
 		return wl + 0x20; // TODO:IMPL:LOW returns some false values?
 	} else if (wh == 0x30){
-		return katakana[wl] + 0xa1;
+		if (wl == 0xfc) return 0xb0;
+		if (katakana[wl] != '?') return katakana[wl] + 0xa1;
 	}
 	iprintf("Error converting u16 to u8 char: 0x%x\n", w);
 	return -1;
-- 
2.43.0


From b37c0cec8eaeac76b3925997b91956db83fc59ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 72/82] fix: FREEVAR counted an array again each time it was
 dimensioned after CLEAR

---
 source/interpreter/vars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index c481276..dc951b3 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -98,7 +98,9 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 			v->error = ERR_OUT_OF_MEMORY;
 			return NULL;
 		}
-		++v->var_count;
+		if (var->type == VAR_EMPTY){
+			++v->var_count; // not if the name was CLEARed
+		}
 		// set var type
 		var->type = type;
 		
-- 
2.43.0


From 7e68f1a5e401e6f967719cba4793c7e932cb0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:49 +0000
Subject: [PATCH 73/82] fix: VAL of an empty string or of "&" read characters
 that are not there

---
 source/interpreter/strfuncs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index c5ca0ea..7c56ee0 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -64,9 +64,9 @@ void func_val(struct ptc* p){
 //	bool negate = false;
 	fixp v;
 
-	u8 first_char = num_str[0];
+	u8 first_char = len > 0 ? num_str[0] : '\0';
 	if (first_char == '&'){
-		u8 second_char = num_str[1];
+		u8 second_char = len > 1 ? num_str[1] : '\0';
 		int base = 0;
 		if (second_char == 'H'){
 			base = 16; // parse as hex
-- 
2.43.0


From 712e21a92acd1adfc7ea131c694cd7696756b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:54 +0000
Subject: [PATCH 74/82] fix: ACLS took memory that was never given back, until
 the machine's memory was overrun

---
 source/system.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/system.c b/source/system.c
index ba59945..d2017eb 100644
--- a/source/system.c
+++ b/source/system.c
@@ -90,8 +90,8 @@ struct labels acls_labels = {0};
 void cmd_acls(struct ptc* p){
 	// copy vars and use a temp variables for this snippet
 	struct runner cur_exec = p->exec; // copy code state
-	struct variables temp_vars = {0};
-	init_mem_var(&temp_vars, 4); //P,I
+	struct named_var acls_vars[4] = {0}; //P,I
+	struct variables temp_vars = {.vars_max = 4, .vars = acls_vars};
 	struct variables vars = p->vars;
 	p->vars = temp_vars;
 	
@@ -107,7 +107,6 @@ void cmd_acls(struct ptc* p){
 	
 	// Restore proper program variable state
 	p->vars = vars;
-	free_mem_var(&temp_vars);
 }
 
 void cmd_visible(struct ptc* p){
-- 
2.43.0


From 05a3f5a14c41bcdce5db41b69b94eaf3c30de5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:54 +0000
Subject: [PATCH 75/82] fix: an EDITOR program with very many lines took more
 memory than there is

---
 source/interpreter/program.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/interpreter/program.c b/source/interpreter/program.c
index 2b08cda..f85a8b9 100644
--- a/source/interpreter/program.c
+++ b/source/interpreter/program.c
@@ -71,7 +71,9 @@ struct bytecode_params calc_min_bytecode(struct program* p){
 		}
 	}
 	++params.lines; // the last line may lack its line end
+	if (params.lines > MAX_LINES) params.lines = MAX_LINES; // no more lines are stored
 	if (!params.labels) params.labels = 1;
+	if (params.labels > MAX_LABELS) params.labels = MAX_LABELS; // same limit as any program
 	// determine necessary labels size
 	params.labels--;
 	params.labels |= params.labels >> 16;
-- 
2.43.0


From f0ff76ab2b8162a0b3fbdea6b35898bf8553fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:03 +0000
Subject: [PATCH 76/82] fix: a window without size (minimized) ended the
 program with a division by zero

---
 source/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/main.c b/source/main.c
index c17c928..2e95854 100644
--- a/source/main.c
+++ b/source/main.c
@@ -294,7 +294,8 @@ int main(int argc, char** argv){
 		sfVector2i pos = sfMouse_getPosition((sfWindow*)window);
 		sfVector2u window_size = sfRenderWindow_getSize(window);
 		bool on_panel = false;
-		if (pos.y >= (int)window_size.y / 2){
+		// a minimized window may have no size at all
+		if (window_size.x > 0 && window_size.y >= 2 && pos.y >= (int)window_size.y / 2){
 			int tchx = SCREEN_WIDTH * pos.x / window_size.x;
 			int tchy = SCREEN_HEIGHT * pos.y / (window_size.y / 2) - SCREEN_HEIGHT;
 			if (tchx < SCREEN_WIDTH && tchx >= 0 && tchy < SCREEN_HEIGHT && tchy >= 0){
-- 
2.43.0


From 0f24437e21f7f84d189d80e0ac3da6f978b37b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:01 +0000
Subject: [PATCH 77/82] fix: INPUT changes no variable before every entry of
 the line is valid

---
 source/subsystem/console.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 99f998d..0cb4b2c 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -401,8 +401,14 @@ void cmd_input(struct ptc* p){
 		u8 conversion_copy[CONSOLE_WIDTH+1];
 		int prev_i = 0;
 		int out_i = 0;
+		bool checked = false; // variables are only changed once every entry is valid
 		
-		for (int i = 0; i < len; ){
+		for (int i = 0; i < len || !checked; ){
+			if (i == len){
+				// every entry is valid: read them again to store them
+				checked = true;
+				i = prev_i = out_i = 0;
+			}
 			struct stack_entry* e = ARG(index+i);
 			// the end of a full line ends the last entry
 			u8 c = out_i < CONSOLE_WIDTH ? to_char(output[out_i]) : '\0';
@@ -418,7 +424,7 @@ void cmd_input(struct ptc* p){
 					}
 					fixp n = u8_to_num(&conversion_copy[prev_i], out_i - prev_i - 1);
 					prev_i = out_i;
-					*(fixp*)e->value.ptr = n; //store result to variable
+					if (checked) *(fixp*)e->value.ptr = n; //store result to variable
 					++i;
 					
 				} else {
@@ -428,7 +434,7 @@ void cmd_input(struct ptc* p){
 				}
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
 				if (c == ',' || c == '\0'){
-					assign_line(p, (struct string**)e->value.ptr, &output[prev_i], out_i - prev_i - 1);
+					if (checked) assign_line(p, (struct string**)e->value.ptr, &output[prev_i], out_i - prev_i - 1);
 					if (p->exec.error) break;
 					prev_i = out_i;
 					++i;
-- 
2.43.0


From 6228fd8a97a6c7c2bf705dae652c7dc27ec2db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:01 +0000
Subject: [PATCH 78/82] fix: READ takes a whole element, also one with more
 than 16 characters

---
 source/interpreter/data.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index a9d256c..6797040 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -33,7 +33,6 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		// Assign new string to variable
 		str_assign(dest->value.ptr, s);
 	} else if (dest->type == (VAR_VARIABLE | VAR_NUMBER)){
-		u8 conversion[16] = {0}; // this buffer size is very arbitrary
 		// skip leading spaces, but only for numbers
 		// strings may contain spaces when quoted
 		while (i < len && src[i] == ' '){
@@ -44,19 +43,17 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		}
 		const int number = i;
 		// Read number!
-		for (; i < len && i - number < 16; ++i){
+		for (; i < len; ++i){
 			u8 c = src[i];
-			if (is_number(c) || c == '-' || c == '.'){
-				conversion[i - number] = c;
-			} else if (c == BC_DATA_DELIM){ 
+			if (c == BC_DATA_DELIM){ 
 				break; // stop reading here
-			} else {
+			} else if (!is_number(c) && c != '-' && c != '.'){
 				return READ_ONE_ERR;
 			}
-			iprintf(":%c", conversion[i - number]);
+			iprintf(":%c", c);
 		}
 		// Convert!
-		*((fixp*)dest->value.ptr) = u8_to_num(conversion, i - number);
+		*((fixp*)dest->value.ptr) = u8_to_num((u8*)&src[number], i - number);
 	} else {
 		return READ_ONE_ERR;
 	}
-- 
2.43.0


From ea2796d05ec7a01143dd05097fa59a855a550799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:59 +0000
Subject: [PATCH 79/82] fix: BREPEAT changes nothing when one of its values is
 refused

---
 source/subsystem/input.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index f940bbb..b95d10c 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -171,8 +171,11 @@ void cmd_brepeat(struct ptc* p){
 		p->input.times[id].start = 0;
 		p->input.times[id].repeat = 0;
 	} else {
-		STACK_INT_MIN(1,0,p->input.times[id].start);
-		STACK_INT_MIN(2,0,p->input.times[id].repeat);
+		int start, repeat;
+		STACK_INT_MIN(1,0,start);
+		STACK_INT_MIN(2,0,repeat);
+		p->input.times[id].start = start;
+		p->input.times[id].repeat = repeat;
 	}
 }
 
-- 
2.43.0


From 67c5b8205040f4e08f611d98a1daae3b31f9b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:15 +0000
Subject: [PATCH 80/82] fix: KEY does not change a text while its key is typing
 it

---
 source/subsystem/panel.c | 27 +++++++++++++++++++++++++++
 source/subsystem/panel.h |  4 ++++
 2 files changed, 31 insertions(+)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 3bc6c87..55696b0 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -118,6 +118,11 @@ const s16 keyboard_pos[][6]={
 };
 
 void init_panel(struct ptc* p){
+#ifdef PC
+	if (mtx_init(&p->panel.func_keys_mtx, mtx_plain) != thrd_success){
+		ABORT("Error creating func_keys_mtx mutex");
+	}
+#endif
 	p->panel.type = PNL_KYA;
 	p->panel.text = alloc_console();
 	p->panel.keys_text = alloc_console();
@@ -267,6 +272,24 @@ char* keyboard_chr[6]={
 	"\0 \xC0\xDE\xC1\xDE\xC2\xDE\xC3\xDE\xC4\xDE\x36\0\x37\0\x38\0\x39\0\x30\0\0 \0 \r\0\0 \0 \0 \0  \0\0 \0 \0 " //shift_kana
 };
 
+static void lock_function_keys(struct panel* p){
+	(void)p;
+#ifdef PC
+	if (mtx_lock(&p->func_keys_mtx) == thrd_error){
+		ABORT("function key mutex lock failure!");
+	}
+#endif
+}
+
+static void unlock_function_keys(struct panel* p){
+	(void)p;
+#ifdef PC
+	if (mtx_unlock(&p->func_keys_mtx) == thrd_error){
+		ABORT("function key mutex unlock failure!");
+	}
+#endif
+}
+
 void set_panel_bg(struct ptc* p, enum pnltype type){
 	// Set BG layout (load layout)
 	// Note that only a portion of the grid is ever needed
@@ -283,8 +306,10 @@ void set_panel_bg(struct ptc* p, enum pnltype type){
 void set_function_key(struct ptc* p, int key, const void* string){
 	assert(1 <= key && key <= 5);
 	--key;
+	lock_function_keys(&p->panel);
 	p->panel.func_keys_len[key] = str_len(string);
 	str_wide_copy(string, p->panel.func_keys[key]);
+	unlock_function_keys(&p->panel);
 	struct console* c = p->panel.keys_text;
 	c->x = 1+key*6;
 	for (idx i = 0; i < 5; ++i){
@@ -435,9 +460,11 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 			p->cursor ^= PNL_INSERT;
 		} else if (pressed_key >= 101 && pressed_key <= 105){
 			int key = pressed_key - 101;
+			lock_function_keys(p);
 			for (int i = 0; i < p->func_keys_len[key]; ++i){
 				set_inkey(&ptc->input, p->func_keys[key][i]);
 			}
+			unlock_function_keys(p);
 		}/* else if (pressed_key >= 70 && pressed_key <= 72){
 			ptc->exec.error = ERR_BUTTON_SIGNAL;
 			ptc->exec.error_info[0] = pressed_key;
diff --git a/source/subsystem/panel.h b/source/subsystem/panel.h
index aeabf76..9edf575 100644
--- a/source/subsystem/panel.h
+++ b/source/subsystem/panel.h
@@ -40,6 +40,10 @@ struct panel {
 	u16 func_keys[5][256];
 	/// Stores the length of the strings stored in each function key.
 	u16 func_keys_len[5];
+#ifdef PC
+	/// Taken while the strings of the function keys are changed or typed.
+	mtx_t func_keys_mtx;
+#endif
 	
 	/// User text console for the lower screen.
 	struct console* text;
-- 
2.43.0


From 79643147b179ab03fd0a96af522f640bc14872c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:14 +0000
Subject: [PATCH 81/82] fix: characters typed after A has ended a line are not
 put into that line

---
 source/subsystem/console.c | 13 ++++++++-----
 source/subsystem/input.c   |  3 ++-
 source/subsystem/input.h   |  3 ++-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 0cb4b2c..1b0aa66 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -215,7 +215,8 @@ u16* shared_input(struct ptc* p){
 	// keys and buttons pressed before the prompt appeared do not act on it
 	u32 sample = 0;
 	u32 key_count = p->panel.key_count;
-	get_edit_buttons(&p->input, &sample);
+	u32 keys; // characters that may be taken from the queue
+	get_edit_buttons(&p->input, &sample, &keys);
 	p->console.cursor_visible = true;
 	// enable typing during INPUT/LINPUT if not already active
 	p->panel.type = PNL_KYA; // TODO:IMPL:MED Update panel fully on load
@@ -224,13 +225,15 @@ u16* shared_input(struct ptc* p){
 		// wait for something to happen
 		// Buttons are checked first: everything typed before a button press is
 		// in the queue already when the press is seen, and acts before it.
-		buttons = get_edit_buttons(&p->input, &sample);
+		// Everything that comes after the press waits for its turn.
+		buttons = get_edit_buttons(&p->input, &sample, &keys);
+		if (!buttons) keys = INKEY_BUF_SIZE;
 		keyboard = 0;
-		if (key_count != p->panel.key_count){
+		if (!buttons && key_count != p->panel.key_count){
 			key_count = p->panel.key_count;
 			keyboard = p->panel.last_key;
 		}
-		inkey = get_inkey(&p->input);
+		inkey = keys ? get_inkey(&p->input) : 0;
 		// This test_mode check isn't ideal, but it allows test
 		// cases to run without waiting for an update from another thread
 		if (!inkey && !buttons && !keyboard && !con->test_mode){
@@ -238,7 +241,7 @@ u16* shared_input(struct ptc* p){
 			struct timespec tspec = {.tv_nsec=FRAME_TENTH_NS};
 			thrd_sleep(&tspec, NULL);
 		}
-		for (; inkey && inkey != '\r'; inkey = get_inkey(&p->input)){
+		for (; inkey && inkey != '\r'; inkey = --keys ? get_inkey(&p->input) : 0){
 			if (!(p->panel.cursor & PNL_INSERT) && out_index < out_index_max){ // REPLACE mode
 				outcol[out_index] = con->col;
 				output[out_index++] = inkey;
diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index b95d10c..5b5af51 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -136,13 +136,14 @@ bool check_pressed(struct input* i, int id){
 	return check_repeat(i->times[id].frame, i->times[id].start, i->times[id].repeat);
 }
 
-int get_edit_buttons(struct input* i, u32* sample){
+int get_edit_buttons(struct input* i, u32* sample, u32* keys){
 	int b = 0;
 #ifdef PC
 	if (mtx_lock(&i->inkey_mtx) == thrd_error){
 		ABORT("get_edit_buttons mutex lock failure!");
 	}
 #endif
+	*keys = i->current_write;
 	if (*sample != i->samples){
 		*sample = i->samples;
 		b |= check_pressed(i, BUTTON_ID_LEFT) << BUTTON_ID_LEFT;
diff --git a/source/subsystem/input.h b/source/subsystem/input.h
index 5e3ce87..55c037c 100644
--- a/source/subsystem/input.h
+++ b/source/subsystem/input.h
@@ -110,8 +110,9 @@ bool check_pressed_manual(struct input* i, int id, int start, int repeat);
 /// Every update of the button state is only reported once.
 /// 
 /// @param sample Number of the last reported update
+/// @param keys Receives the number of characters that are in the queue by then
 /// @return Bits of the pressed buttons. L and R are also reported when released.
-int get_edit_buttons(struct input* i, u32* sample);
+int get_edit_buttons(struct input* i, u32* sample, u32* keys);
 
 void cmd_brepeat(struct ptc* p);
 void func_btrig(struct ptc* p);
-- 
2.43.0


From 51eebe95cafbb9fd91f1f7e417aa19c5aac6b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:42 +0000
Subject: [PATCH 82/82] fix: GPAINT paints nothing when it starts on the border
 or on the paint colour

---
 source/subsystem/graphics.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 5f353ac..d9028b2 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -539,6 +539,9 @@ void cmd_gpaint(struct ptc* p){
 	} else {
 		match = data[grp_index(x,y)];
 	}
+	if (!inside(data, x, y, match, c)){
+		return; // there is nothing to fill here: the area above is another one
+	}
 	int stack_i = 0;
 	u32 stack[PAINT_STACK_MAX];
 	
-- 
2.43.0

