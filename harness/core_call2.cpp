#include "core.h"
template<typename R> void one()
{
    caller<R>();
    caller< R, Value& >(); caller< R, const Value& >(); caller< R, Value&& >();
    caller< R, U<0>& >(); caller< R, const U<0>& >(); caller< R, U<0>&& >();
    caller< R, U<1>& >(); caller< R, const U<1>& >(); caller< R, U<1>&& >();
}
template<typename A> void two()
{
    caller< void, A, Value& >(); caller< void, A, const Value& >(); caller< void, A, U<0>& >();
    caller< void, A, const U<0>& >(); caller< void, A, U<0>&& >(); caller< void, A, U<1>& >();
}
void registerCallers2()
{
    one< const U<0>& >(); one< U<1> >(); one< const U<1>& >();
    two<Value&>(); two<const Value&>();
    caller< void, Value&, Value&, Value& >();
    caller< void, U<1>&, Value&, const U<0>& >();
}
