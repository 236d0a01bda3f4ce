SEEDS = [
dict(id='terminate-before-detach', property='C33', cxx=1, needs='a C++ program whose terminate handler ends only the failed thread, and a thread with key values that throws',
 breaks='When an exception leaves the start routine the terminate handler is called without the thread having been detached: its key destructors never run.',
 edits=[('ptw32_threadStart.c', """(void) pthread_win32_thread_detach_np ();
    terminate ();""", """terminate ();
    (void) pthread_win32_thread_detach_np ();""")],
 demo=r"""
 static pthread_key_t k; static volatile int d, t;
 static void dtor(void *v) { d++; }
 static void term(void) { t = d + 1; _endthreadex(0); }
 static void *b(void *a) { pthread_setspecific(k, (void *)1); throw 1; return 0; }
 int main(void) { pthread_t th; watchdog(); std::set_terminate(term); pthread_key_create(&k, dtor); pthread_create(&th, NULL, b, 0); while (!t) Sleep(1); if (t != 2) fail("terminate handler called before the destructors"); ok(); }
"""),
dict(id='catch-swallows-exit', property='C33', cxx=1, needs='a C++ thread that calls pthread_exit under a catch (...)',
 breaks='The catch clauses of applications let cancellation through but swallow pthread_exit: the thread carries on.',
 edits=[('pthread.h', "#define catch( E ) \\\n catch( ptw32_exception & ) { throw; } \\\n catch( E )", "#define catch( E ) \\\n        catch( ptw32_exception_cancel & ) { throw; } \\\n        catch( E )")],
 demo=r"""
 static void *b(void *a) { try { pthread_exit((void *)5); } catch (...) { } return (void *)6; }
 int main(void) { pthread_t th; void *v; watchdog(); pthread_create(&th, NULL, b, 0); pthread_join(th, &v); if (v != (void *)5) fail("pthread_exit was caught"); ok(); }
"""),
dict(id='destructor-throw-ignored', property='C33', cxx=1, needs='a key destructor that throws in a C++ program',
 breaks='An exception leaving a key destructor is dropped instead of calling the terminate handler.',
 edits=[('ptw32_callUserDestroyRoutines.c', """* exceptions.
		       */
		      terminate ();""", """* exceptions.
		       */
		      iterations++;""")],
 demo=r"""
 static pthread_key_t k; static volatile int t;
 static void dtor(void *v) { throw 1; }
 static void term(void) { t = 1; _endthreadex(0); }
 static void *b(void *a) { pthread_setspecific(k, (void *)1); return 0; }
 int main(void) { pthread_t th; void *v; watchdog(); std::set_terminate(term); pthread_key_create(&k, dtor); pthread_create(&th, NULL, b, 0); pthread_join(th, &v); Sleep(50); if (!t) fail("exception ignored"); ok(); }
"""),
]
