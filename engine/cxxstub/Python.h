#pragma once
struct PyObject; 
extern "C" PyObject *PyCapsule_New(void *, const char *, void (*)(PyObject *));
