-------------------------- MODULE TraceContainers --------------------------
EXTENDS Containers, Json, IOUtils
VARIABLES l, st, skip
Recorded == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Trace <- Recorded, StartState <- InitState, Expected <- Step
=============================================================================
