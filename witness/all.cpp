// The library as one translation unit, so that calls between its files can be followed.
#include "base64.cpp"
#include "io.cpp"
#include "fastgltf.cpp"
