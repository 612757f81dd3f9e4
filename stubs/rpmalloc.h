#pragma once
extern "C" void rpmalloc_linker_reference(void);
