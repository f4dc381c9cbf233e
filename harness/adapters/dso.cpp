// libtarget.so is linked without the C start files
extern "C" { __attribute__((visibility("hidden"))) void* __dso_handle = nullptr; }
