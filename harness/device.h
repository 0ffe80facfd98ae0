// the environment of a device: recording transports, host names and interfaces
#pragma once
#include <harness/mock.h>
#include <harness/fsm_model.h>
#include <fairmq/Device.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Network.h>
namespace env {
inline std::vector<std::shared_ptr<mock::Factory>>& factories() { static std::vector<std::shared_ptr<mock::Factory>> v; return v; }
inline std::string& createdNames() { static std::string s; return s; }
inline bool& routeFails() { static bool b = false; return b; }
inline std::function<void(const std::string&)>& onResolve() { static std::function<void(const std::string&)> f; return f; }
inline std::string resolve(const std::string& h) { if (onResolve()) onResolve()(h); return h == "badhost" ? "" : h == "*" ? "*" : h == "localhost" ? "127.0.0.1" : h.find_first_not_of("0123456789.") == std::string::npos ? h : "10.0.0." + std::to_string(h.size()); }
}
namespace fair::mq {
auto TransportFactory::CreateTransportFactory(const std::string& type, const std::string& id, const ProgOptions*) -> std::shared_ptr<TransportFactory>
{
    env::createdNames() += type + ";"; auto f = std::make_shared<mock::Factory>(type == "shmem" ? Transport::SHM : Transport::ZMQ, id); env::factories().push_back(f); return f;
}
namespace tools {
std::string getIpFromHostname(const std::string& h) { return env::resolve(h); }
std::string getInterfaceIP(const std::string& i) { return i == "eth7" ? "10.1.1.7" : i == "lo" ? "127.0.0.1" : ""; }
std::string getDefaultRouteNetworkInterface() { if (env::routeFails()) throw DefaultRouteDetectionError("no default route"); return "eth7"; }
}
}
