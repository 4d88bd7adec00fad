#include "core.h"
// arity 0 and 1
template<typename T_> void rets()
{
    pool<T_>(); pool<T_&>(); pool<const T_&>(); pool<T_&&>(); pool<const T_>();
    poolGlob<T_>(); poolGlob<T_&>(); poolGlob<const T_&>();
}
template<typename R, typename T_> void args1()
{
    pool<R, T_>(); pool<R, T_&>(); pool<R, const T_&>(); pool<R, T_&&>(); pool<R, const T_&&>();
}
void registerPool1()
{
    pool<void>(); pool<Value>(); poolGlob<void>();
    rets< U<0> >(); rets< U<1> >(); rets< U<2> >();
    args1< void, U<0> >(); args1< void, U<1> >(); args1< void, U<2> >();
    pool<void, Value>(); pool<void, Value&>(); pool<void, const Value&>();

    poolGlob< void, U<0> >(); poolGlob< void, U<0>& >(); poolGlob< void, const U<0>& >();
    poolGlob< void, U<0>&& >(); poolGlob< U<1>, const U<0>& >();

    poolMem< void, 0 >(); poolMem< void, 1 >();
    poolMem< U<0>, 0 >(); poolMem< U<0>&, 0 >(); poolMem< const U<1>&, 0 >();

    poolCount< void >(); poolCount< U<0> >(); poolCount< void, U<0>& >();
    poolCount< void, const U<1>& >(); poolCount< void, Value >();
}
