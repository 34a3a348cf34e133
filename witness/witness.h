// Witness units state obligations over the library's functions; they are compiled and analysed, never executed.
// A witness is discharged when, after constant propagation over the library's IR, no path reaches the marker.
#pragma once
extern "C" void czi_violation(const char* what);   // never defined
#define REQUIRE(cond, what) do { if (!(cond)) czi_violation(what); } while (0)
extern "C" void czi_done();                       // never defined: the witness got to its end (the operation can succeed)
#define ASSUME(cond) do { if (!(cond)) return; } while (0)
extern "C" void czi_exceptions();                 // never defined: exceptions thrown by the library are followed to their handlers in this witness
// the call never returns normally (exceptions are not followed: cheaper than REJECTS, for operations that do not handle exceptions themselves)
#define NEVER_RETURNS(call, what) do { call; czi_violation(what); } while (0)
#define REJECTS(call, what) do { bool thrown = false; try { call; } catch (...) { thrown = true; } REQUIRE(thrown, what); } while (0)
extern "C" void czi_startup();                    // never defined: the program's variables behind the site object have their initial values
