#include "core.h"
template<typename R, typename A> void two()
{
    caller< R, A, Value& >(); caller< R, A, const Value& >(); caller< R, A, U<0>& >();
    caller< R, A, const U<0>& >(); caller< R, A, U<0>&& >(); caller< R, A, U<1>& >();
}
void registerCallers3()
{
    two< void, U<0>& >(); two< void, const U<0>& >(); two< void, U<0>&& >(); two< void, U<1>& >();
    two< Value, Value& >(); two< U<0>&, Value& >();
}
