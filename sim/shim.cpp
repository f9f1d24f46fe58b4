// Inline parts of the library's headers, instrumented like the library.
#include "Server.hpp"
using namespace DowowNetwork;
namespace shim {
void set_connected(Server* s, ConnectionHandler h) { s->SetConnectedHandler(h); }
void set_disconnected(Server* s, ConnectionHandler h) { s->SetDisconnectedHandler(h); }
Connection& get(SafeConnection* s) { return (*s)(); }
void drop(SafeConnection* s) { delete s; }
SafeConnection* copy(SafeConnection* s) { return new SafeConnection(*s); }
void assign(SafeConnection* a, SafeConnection* b) { *a = *b; }
}
