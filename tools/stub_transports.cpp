// stand-in for the transports, which this program does not use
#include <fairmq/TransportFactory.h>
#include <stdexcept>
namespace fair::mq { auto TransportFactory::CreateTransportFactory(const std::string&, const std::string&, const ProgOptions*) -> std::shared_ptr<TransportFactory> { throw std::runtime_error("no transport"); } }
