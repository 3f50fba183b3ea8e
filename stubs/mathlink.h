/* declarations only: lets the analyses parse the LibraryLink interface */
#pragma once
typedef struct MLink_ *MLINK;
extern "C" {
int MLPutSymbol(MLINK, const char*);
int MLPutInteger(MLINK, int);
int MLPutReal(MLINK, double);
int MLPutFunction(MLINK, const char*, int);
int MLPutRealList(MLINK, double*, int);
int MLPutDoubleArray(MLINK, double*, long*, char**, int);
int MLPutUTF8Symbol(MLINK, const unsigned char*, int);
int MLPutUTF8String(MLINK, const unsigned char*, int);
int MLCheckFunction(MLINK, const char*, long*);
int MLTestHead(MLINK, const char*, int*);
int MLGetReal64(MLINK, double*);
int MLNewPacket(MLINK);
int MLEndPacket(MLINK);
int MLNextPacket(MLINK);
int MLFlush(MLINK);
int MLError(MLINK);
int MLClearError(MLINK);
const char* MLErrorMessage(MLINK);
int MLPutString(MLINK, const char*);
int MLPutInteger32(MLINK, int);
int MLPutInteger64(MLINK, long);
int MLPutReal64(MLINK, double);
int MLPutReal64List(MLINK, double*, int);
int MLPutInteger32List(MLINK, int*, int);
int MLGetInteger32(MLINK, int*);
int MLGetInteger64(MLINK, long*);
int MLGetReal64List(MLINK, double**, int*);
int MLReleaseReal64List(MLINK, double*, int);
int MLGetString(MLINK, const char**);
int MLReleaseString(MLINK, const char*);
int MLTestFunction(MLINK, const char*, int*);
int MLTestString(MLINK, const char*);
int MLTestSymbol(MLINK, const char*);
int MLGetFunction(MLINK, const char**, int*);
int MLReady(MLINK);
}
