// Engine "reader": programs against the tag-based Reader API.
#include "reader_core.h"

static void engine_reader() {
    static const ReaderProgram P = {r_element, NULL, NULL, NULL};
    run_reader(P);
}
static EngineReg reg("reader", engine_reader);
