#include "core.h"
template<typename R> void one()
{
    caller<R>();
    caller< R, Value& >(); caller< R, const Value& >(); caller< R, Value&& >();
    caller< R, U<0>& >(); caller< R, const U<0>& >(); caller< R, U<0>&& >();
    caller< R, U<1>& >(); caller< R, const U<1>& >(); caller< R, U<1>&& >();
    caller< R, const U<0>&& >();
}
void registerCallers1()
{
    one<void>(); one<Value>(); one< U<0> >(); one< U<0>& >();
}
