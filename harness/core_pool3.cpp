#include "core.h"
template<typename A, typename B> void two() { pool<void, A, B>(); poolGet<void, A, B>(); }
template<typename A> void twoA()
{
    two< A, U<0> >(); two< A, U<0>& >(); two< A, const U<0>& >(); two< A, U<0>&& >();
    two< A, U<1>& >(); two< A, const U<1>& >(); two< A, U<1> >(); two< A, Value >();
}
template<typename A, typename B, typename C> void three() { pool<void, A, B, C>(); }
template<typename A, typename B> void threeB()
{ three< A, B, const U<0>& >(); three< A, B, U<1>& >(); three< A, B, U<0> >(); }
template<typename A> void threeA()
{ threeB< A, const U<0>& >(); threeB< A, U<1>& >(); threeB< A, U<0> >(); }

template<typename R, typename T_> void get1()
{
    poolGet<R, T_>(); poolGet<R, T_&>(); poolGet<R, const T_&>(); poolGet<R, T_&&>();
    poolGet<R, const T_&&>();
}
void registerPool3()
{
    twoA< U<1>& >(); twoA< const U<1>& >(); twoA< U<1> >(); twoA< Value >();
    threeA< const U<0>& >(); threeA< U<1>& >(); threeA< U<0> >();
    poolMem< void, 0, U<1>& >(); poolMem< U<0>, 0, U<1> >(); poolMem< void, 1, const U<0>& >();

    poolGet<void>(); poolGet<Value>(); poolGet< U<0> >(); poolGet< U<0>& >();
    poolGet< const U<0>& >(); poolGet< U<1> >(); poolGet< const U<1>& >();
    get1< void, U<0> >(); get1< void, U<1> >(); get1< void, U<2> >();
    get1< U<0>, U<0> >(); get1< const U<0>&, U<0> >(); get1< Value, U<1> >();
    poolGet< void, Value >(); poolGet< U<0>&, Value >();
}
