// Declarations of the Android asset manager that the library uses (the NDK is not installed here).
#pragma once
#include <sys/types.h>
#include <cstddef>
#include <cstdint>
struct AAssetManager; struct AAsset;
enum { AASSET_MODE_UNKNOWN = 0, AASSET_MODE_RANDOM = 1, AASSET_MODE_STREAMING = 2, AASSET_MODE_BUFFER = 3 };
extern "C" {
AAsset* AAssetManager_open(AAssetManager*, const char*, int);
int AAsset_read(AAsset*, void*, size_t);
off_t AAsset_seek(AAsset*, off_t, int);
int64_t AAsset_seek64(AAsset*, int64_t, int);
void AAsset_close(AAsset*);
const void* AAsset_getBuffer(AAsset*);
off_t AAsset_getLength(AAsset*);
int64_t AAsset_getLength64(AAsset*);
}
