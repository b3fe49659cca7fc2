# Properties this family of technique does not decide here.
na("P31","The DS build shows and does the same as the PC build",
 "Every program draws the same picture, answers the same input and reads the same files on a Nintendo DS as on a PC.",
 ["programs","configurations"],"for every program and every machine the source is built for",
 "tests run on the PC only",
 ["source/graphics/nds/display_nds.c","source/graphics/nds/display_nds.h"],[("DS display","source/graphics/nds/display_nds.c"),("DS main loop","source/main.c")],
 "the DS back end needs devkitARM and libnds (registers, VRAM banks, interrupts); neither is present and nothing of it can be compiled or run here, so there is no system to put under the simulator")
na("P32","The GPU carries out the fragment shader as the display code assumes",
 "The colours that resources/bgsp.frag computes on a real GPU for the textures, palettes and vertices handed over are those of the PTC's palette model.",
 ["inputs","configurations"],"for every texture, palette and driver",
 "no test has a GPU",
 ["resources/bgsp.frag"],[("fragment shader","resources/bgsp.frag")],
 "no GPU, OpenGL driver or SFML library exists in the sandbox; P24 decides what is handed to the GPU and models the shader, the shader itself cannot be run, and it has no schedule, time or fault of its own")
na("P33","SIN, COS, TAN, ATAN, LOG, EXP and SQR are as accurate as 12 fraction bits allow",
 "For every argument the result differs from the mathematical value by at most the smallest fraction a number can hold.",
 ["inputs"],"for all 2^32 arguments of each function",
 "tests sample a few arguments",
 ["source/interpreter/mathptc.c"],[("number functions","source/interpreter/mathptc.c")],
 "pure functions of one number: no schedule, clock, I/O, fault or second party can change a result, so a search over schedules and faults adds nothing; P19 compares the results that programs get with a reference, not the accuracy over all arguments")
