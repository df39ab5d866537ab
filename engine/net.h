// In-memory TCP: the socket calls of the process are interposed; both ends live in this process. The server side is
// the code under test using plain sockets; the client side is the harness using net::Conn.
#ifndef HZV_NET_H
#define HZV_NET_H

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace net {
    struct Knobs {
        // which faults the explorer may inject at a server-side operation (kind FAULT, one deviation each)
        bool send_faults = false, recv_faults = false, accept_faults = false, sockopt_faults = false, bind_faults = false;
        bool short_send = false;      // partial transfers, all lengths up to 4, boundary ones beyond
        bool yield_points = false;    // every socket call is a scheduling point
        std::function<void(int fd)> on_close;
    };
    extern Knobs knobs;

    // One connection. Bytes in the two directions.
    struct Conn {
        int fd = -1;                       // server's descriptor
        std::string to_server, to_client;  // not yet read
        std::string sent_by_server, sent_by_client;   // everything
        bool client_closed = false;        // client vanished (no more bytes; sends fail)
        bool client_half = false;          // client shut down its sending side only
        bool reset = false;                // connection lost
        int server_closes = 0;             // close() calls by the server on fd
        bool accepted = false;
        int faults = 0;                    // injected on this connection
        bool server_shut = false;
        uint16_t port = 0;
        bool has_timeout = false;          // SO_RCVTIMEO/SO_SNDTIMEO were set
        int64_t recv_timeout = 0, send_timeout = 0;   // in microseconds
        // client side
        void put(const void *p, size_t n);
        void put(const std::string &s) { put(s.data(), s.size()); }
        std::string get(size_t n);         // blocks until n bytes or the end; shorter at the end
        bool ended() const;                // server closed or reset and nothing is left
        void close();
        void half_close();
    };

    void reset();                                        // start of an execution
    std::shared_ptr<Conn> make(int *fd);                 // an already accepted connection
    std::shared_ptr<Conn> connect(uint16_t port);        // blocks until a server listens; null if it no longer does
    bool listening(uint16_t port);
    int open_server_fds();                               // accepted connections not yet closed
    int open_listeners();
    std::vector<std::shared_ptr<Conn>> all();
}
#endif
