// analysis stub: the WASM sources only need these names to be parsed
#pragma once
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
#define EM_ASM(...) ((void)0)
#define EM_ASM_(...) ((void)0)
