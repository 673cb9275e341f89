// Glue between the Python workloads and parts of the library that have no Python interface.
#include <Python.h>
#include <string>
#include <vector>
#include "agsim.h"

#define EXPORT extern "C" __attribute__((visibility("default")))

static void pytramp(void* arg)
{
    PyGILState_STATE s = PyGILState_Ensure();
    PyObject* r = PyObject_CallObject((PyObject*)arg, NULL);
    if(r) Py_DECREF(r); else PyErr_Clear();
    PyGILState_Release(s);
}
/// run a list of Python callables as concurrent simulated threads
EXPORT void shim_run_pythreads(PyObject* list)
{
    int n = (int)PyList_Size(list);
    std::vector<void*> args(n);
    for(int i=0; i<n; i++) args[i] = PyList_GetItem(list, i);
    PyThreadState* ts = PyEval_SaveThread();
    agsim_spawn(n, pytramp, &args[0]);
    PyEval_RestoreThread(ts);
}
EXPORT void shim_yield_gil()
{
    PyThreadState* ts = PyEval_SaveThread();
    agsim_yield();
    PyEval_RestoreThread(ts);
}

#include <signal.h>
/// address of the currently installed SIGINT handler
EXPORT void* shim_sigint_handler()
{
    struct sigaction sa;
    sigaction(SIGINT, NULL, &sa);
    return (void*)sa.sa_handler;
}

//---------------------------------------------------------------- file formats without a Python interface
#include <string.h>
#include <stdio.h>
#include <stdexcept>
#include "potential_factory.h"
#include "utils_config.h"
#include "units.h"
#include "utils.h"

static int fail(char* err, const std::exception& e) { snprintf(err, 400, "%s", e.what()); return 1; }

/// density of a cumulative mass profile read from a file at n radii
EXPORT int shim_mass_profile(const char* file, int n, const double* r, double* out, char* err)
{
    try {
        math::LogLogSpline s = potential::readMassProfile(file);
        for(int i=0; i<n; i++) out[i] = s(r[i]);
        return 0;
    }
    catch(std::exception& e) { return fail(err, e); }
}
/// potential read from a GalPot file at n points
EXPORT int shim_galpot(const char* file, int n, const double* x, double* out, char* err)
{
    try {
        potential::PtrPotential p = potential::readGalaxyPotential(file, units::ExternalUnits());
        for(int i=0; i<n; i++) out[i] = p->value(coord::PosCar(x[i*3], x[i*3+1], x[i*3+2]));
        return 0;
    }
    catch(std::exception& e) { return fail(err, e); }
}

static int str(const std::string& s, char* out, int size)
{
    snprintf(out, size, "%s", s.c_str());
    return (int)s.size();
}
/// INI file access: handle = heap-allocated ConfigFile
EXPORT void* shim_ini_open(const char* file, int mustExist, char* err)
{
    try { return new utils::ConfigFile(file, mustExist); }
    catch(std::exception& e) { fail(err, e); return NULL; }
}
EXPORT void shim_ini_close(void* h) { delete (utils::ConfigFile*)h; }
EXPORT int shim_ini_sections(void* h, char* out, int size)
{
    std::vector<std::string> s = ((utils::ConfigFile*)h)->listSections();
    std::string r;
    for(size_t i=0; i<s.size(); i++) r += s[i] + '\n';
    return str(r, out, size);
}
/// op: 's' getString, 'd' getDouble, 'i' getInt, 'b' getBool, 'c' contains, 'k' keys, 'l' dumpLines, 'L' dumpSingleLine, 'S' getStringAlt, 'v' getDoubleVector,
///     'p' popString, 'P' popStringAlt, 'u' unset, '=' set string, 'D' set double, 'I' set int, 'B' set bool, 'a' add
EXPORT int shim_ini_op(void* h, int op, const char* sec, const char* key, const char* val, char* out, int size, char* err)
{
    try {
        utils::KeyValueMap& m = ((utils::ConfigFile*)h)->findSection(sec);
        char buf[64]; std::string r;
        switch(op) {
        case 's': r = m.getString(key, val); break;
        case 'S': r = m.getStringAlt(key, val, "none"); break;
        case 'd': snprintf(buf, 64, "%.17g", m.getDouble(key, atof(val))); r = buf; break;
        case 'i': snprintf(buf, 64, "%d", m.getInt(key, atoi(val))); r = buf; break;
        case 'b': r = m.getBool(key, val[0]=='1') ? "1" : "0"; break;
        case 'c': r = m.contains(key) ? "1" : "0"; break;
        case 'k': { std::vector<std::string> s = m.keys(); for(size_t i=0; i<s.size(); i++) r += s[i] + '\n'; break; }
        case 'l': { std::vector<std::string> s = m.dumpLines(); for(size_t i=0; i<s.size(); i++) r += s[i] + '\n'; break; }
        case 'L': r = m.dumpSingleLine(); break;
        case 'v': { std::vector<double> s = m.getDoubleVector(key, std::vector<double>(1, 42.)); for(size_t i=0; i<s.size(); i++) { snprintf(buf, 64, "%.17g ", s[i]); r += buf; } break; }
        case 'p': r = m.popString(key, val); break;
        case 'P': r = m.popStringAlt(key, val, "none"); break;
        case 'u': r = m.unset(key) ? "1" : "0"; break;
        case '=': m.set(key, std::string(val)); break;
        case 'D': m.set(key, atof(val), 14); break;
        case 'I': m.set(key, atoi(val)); break;
        case 'B': m.set(key, val[0]=='1'); break;
        case 'a': m.add(val); break;
        }
        str(r, out, size);
        return 0;
    }
    catch(std::exception& e) { return fail(err, e); }
}
EXPORT int shim_verbosity(int l) { int o = utils::verbosityLevel; utils::verbosityLevel = (utils::VerbosityLevel)l; return o; }
