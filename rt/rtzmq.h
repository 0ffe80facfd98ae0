#pragma once
void rt_zmq_eintr(int n);        // number of EINTR results explored at blocking points
int rt_zmq_sockets();            // sockets not closed
int rt_zmq_messages();           // message contents not deallocated
void rt_zmq_fail_socket(int n);  // the n-th zmq_socket call from now fails
