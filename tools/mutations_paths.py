"""Short names of the source files."""
RT, FU, CH, TI = "core/actor/actor_runtime_impl.go", "core/actor/actor_reenter_impl.go", "core/actor/actor_chain.go", "core/actor/actor_timer.go"
BU, CX, SY, AC = "core/actor/actor_build_impl.go", "core/actor/actor_context_impl.go", "core/node/system_impl.go", "core/node/system_acceptor.go"
AB, PT, PC, PM = "core/addressbook/addressbook_impl.go", "lib/pubsub/ps_topic.go", "lib/pubsub/ps_channel.go", "lib/pubsub/ps_mgr.go"
MQ, UB, DM, MS = "lib/mpsc/mpsc.go", "lib/unbounded/unbounded.go", "lib/dismutex/dismutex.go", "router/msg/msg.go"
MM, MO, EN, TK = "router/msg/msg_custom_map.go", "router/msg/map_custom_object.go", "core/entity.go", "lib/timer/timer_tick.go"
TS, SR, GC, WG = "lib/timer/timer.go", "lib/tracer/slow_reporter.go", "lib/grpc/client.go", "lib/warpwaitgroup/warpwaitgroup.go"
