// raw data for a Frame, kept in memory: what a reader hands to a Frame (harnesses for C04, C05)
#pragma once
#include "event.h"
#include "podio/Frame.h"
struct MemData {
  std::map<std::string, Raw> raw; // not yet unpacked
  podio::CollectionIDTable table;
  podio::GenericParameters params;
  std::shared_ptr<std::map<std::string, int>> asked = std::make_shared<std::map<std::string, int>>(); // how often buffers were handed out
  podio::CollectionIDTable getIDTable() const { return {table.ids(), table.names()}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& n) {
    auto it = raw.find(n);
    if (it == raw.end())
      return std::nullopt;
    ++(*asked)[n];
    auto b = readBuffers(it->second);
    raw.erase(it);
    return b;
  }
  std::vector<std::string> getAvailableCollections() const {
    std::vector<std::string> r;
    for (auto& [n, _] : raw)
      r.push_back(n);
    return r;
  }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(std::move(params)); }
};
