extern "C" int noplugin() { return 1; }
