// Configurations of the ini reader that the shipped library does not use: client_ini.c compiles ini_reader.c again with each.
#pragma once
struct IniConfig { int max, heap, stop, newsec, lineno, noval, multi, bom, inl, own; const char *start, *mid; };
static const struct IniConfig kIniConfig[] = {
//    max heap stop newsec lineno noval multi bom inline own  comment line, inline comment
    {1000, 1, 0, 0, 0, 1, 1, 1, 1, 0, ";#", ";"},
    { 200, 1, 1, 0, 0, 1, 1, 1, 1, 0, ";#", ";#"},
    { 200, 0, 0, 1, 1, 0, 1, 1, 1, 0, ";", ";"},
    { 300, 0, 0, 0, 0, 1, 0, 0, 0, 0, "!%", ";"},
    { 400, 1, 1, 1, 1, 1, 1, 0, 1, 1, "#", "!;"},
    {  64, 0, 1, 0, 0, 0, 0, 1, 0, 0, ";#", ";"},
};
