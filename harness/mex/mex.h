/* The part of MATLAB's MEX interface (R2018a, 64 bit) that the gateways use,
 * served by the stand-in host in harness/mexhost.hpp. */
#ifndef VP_MEX_H
#define VP_MEX_H
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef size_t mwSize;
typedef size_t mwIndex;
typedef struct mxArray_tag mxArray;
typedef double mxDouble;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
void* mxMalloc(size_t n);
void* mxCalloc(size_t n, size_t size);
void* mxRealloc(void* p, size_t n);
void mxFree(void* p);
int mexPrintf(const char* f, ...);
void mexErrMsgTxt(const char* s);
int mexCallMATLAB(int nlhs, mxArray* plhs[], int nrhs, mxArray* prhs[], const char* name);
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
mxArray* mxCreateCellMatrix(mwSize m, mwSize n);
mxArray* mxCreateString(const char* s);
void mxDestroyArray(mxArray* a);
double* mxGetPr(const mxArray* a);
mxDouble* mxGetDoubles(const mxArray* a);
int mxSetDoubles(mxArray* a, mxDouble* p);
mwIndex* mxGetIr(const mxArray* a);
mwIndex* mxGetJc(const mxArray* a);
size_t mxGetM(const mxArray* a);
size_t mxGetN(const mxArray* a);
void mxSetM(mxArray* a, mwSize m);
void mxSetN(mxArray* a, mwSize n);
mwSize mxGetNumberOfDimensions(const mxArray* a);
size_t mxGetNumberOfElements(const mxArray* a);
mxArray* mxGetField(const mxArray* a, mwIndex k, const char* name);
double mxGetScalar(const mxArray* a);
int mxGetString(const mxArray* a, char* s, mwSize len);
bool mxIsChar(const mxArray* a);
bool mxIsComplex(const mxArray* a);
bool mxIsEmpty(const mxArray* a);
bool mxIsSparse(const mxArray* a);
bool mxIsStruct(const mxArray* a);
bool mxIsInf(double x);
bool mxIsNaN(double x);
void mxSetCell(mxArray* a, mwIndex k, mxArray* v);
#define mxAssert(x, s)
#ifndef __cplusplus
#define printf mexPrintf
#endif
#ifdef __cplusplus
}
#endif
#endif
