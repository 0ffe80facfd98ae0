// Reference model of the documented device state machine (docs/Device.md): the transition table.
#pragma once
#include <fairmq/States.h>
#include <fairmq/StateMachine.h>
#include <rt/rt.h>
namespace model {
using fair::mq::State; using fair::mq::Transition;
const State ALL[] = {State::Undefined, State::Ok, State::Error, State::Idle, State::InitializingDevice, State::Initialized, State::Binding, State::Bound, State::Connecting, State::DeviceReady, State::InitializingTask, State::Ready, State::Running, State::ResettingTask, State::ResettingDevice, State::Exiting};
const int NT = 12;
// Undefined: not a transition
inline State next(State s, Transition t)
{
    switch (s) {
        case State::Idle: return t == Transition::InitDevice ? State::InitializingDevice : t == Transition::End ? State::Exiting : State::Undefined;
        case State::InitializingDevice: return t == Transition::CompleteInit ? State::Initialized : State::Undefined;
        case State::Initialized: return t == Transition::Bind ? State::Binding : t == Transition::ResetDevice ? State::ResettingDevice : State::Undefined;
        case State::Binding: return t == Transition::Auto ? State::Bound : State::Undefined;
        case State::Bound: return t == Transition::Connect ? State::Connecting : t == Transition::ResetDevice ? State::ResettingDevice : State::Undefined;
        case State::Connecting: return t == Transition::Auto ? State::DeviceReady : State::Undefined;
        case State::DeviceReady: return t == Transition::InitTask ? State::InitializingTask : t == Transition::ResetDevice ? State::ResettingDevice : State::Undefined;
        case State::InitializingTask: return t == Transition::Auto ? State::Ready : State::Undefined;
        case State::Ready: return t == Transition::Run ? State::Running : t == Transition::ResetTask ? State::ResettingTask : State::Undefined;
        case State::Running: return t == Transition::Stop ? State::Ready : State::Undefined;
        case State::ResettingTask: return t == Transition::Auto ? State::DeviceReady : State::Undefined;
        case State::ResettingDevice: return t == Transition::Auto ? State::Idle : State::Undefined;
        default: return State::Undefined;
    }
}
inline bool joined(State a, State b) { for (int t = 0; t < NT; ++t) if (next(a, static_cast<Transition>(t)) == b) return true; return false; }
// transitions on a shortest way from Idle to s
inline int route(State s, Transition* r)
{
    static const Transition fwd[] = {Transition::InitDevice, Transition::CompleteInit, Transition::Bind, Transition::Auto, Transition::Connect, Transition::Auto, Transition::InitTask, Transition::Auto, Transition::Run};
    int n = -1;
    switch (s) {
        case State::Idle: return 0;
        case State::InitializingDevice: n = 1; break;
        case State::Initialized: n = 2; break;
        case State::Binding: n = 3; break;
        case State::Bound: n = 4; break;
        case State::Connecting: n = 5; break;
        case State::DeviceReady: n = 6; break;
        case State::InitializingTask: n = 7; break;
        case State::Ready: n = 8; break;
        case State::Running: n = 9; break;
        case State::ResettingTask: n = 8; break;
        case State::ResettingDevice: n = 2; break;
        case State::Exiting: r[0] = Transition::End; return 1;
        default: return -1;
    }
    for (int i = 0; i < n; ++i) r[i] = fwd[i];
    if (s == State::ResettingTask) r[n++] = Transition::ResetTask;
    if (s == State::ResettingDevice) r[n++] = Transition::ResetDevice;
    return n;
}
}
