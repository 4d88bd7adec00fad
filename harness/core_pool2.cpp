#include "core.h"
// arity 1 with results
template<typename R> void retArgs()
{
    pool< R, U<0> >(); pool< R, U<0>& >(); pool< R, const U<0>& >(); pool< R, U<0>&& >();
    pool< R, U<1> >(); pool< R, const U<1>& >(); pool< R, Value >();
}
template<typename A, typename B> void two() { pool<void, A, B>(); }
template<typename A> void twoA()
{
    two< A, U<0> >(); two< A, U<0>& >(); two< A, const U<0>& >(); two< A, U<0>&& >();
    two< A, U<1>& >(); two< A, const U<1>& >(); two< A, U<1> >(); two< A, Value >();
}
void registerPool2()
{
    retArgs< U<0> >(); retArgs< U<0>& >(); retArgs< const U<0>& >(); retArgs< U<1> >();
    retArgs< Value >();
    twoA< U<0> >(); twoA< U<0>& >(); twoA< const U<0>& >(); twoA< U<0>&& >();
}
