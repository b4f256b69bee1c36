H='include/coro/net/ip_address.hpp'; S='include/coro/net/socket_address.hpp'
muts=[
(H,"success != 1 || text.find('\\0') != std::string::npos","success != 1"),
(H,"        if (success != 1 ","        if (success == 0 && domain == domain_t::ipv4 "),
(H,'output.resize(INET6_ADDRSTRLEN,','output.resize(40,'),
(H,'output.resize(INET_ADDRSTRLEN,','output.resize(15,'),
(H,'binary_address.size() > ipv4_len)','binary_address.size() > ipv6_len)'),
(H,'else if (binary_address.size() > ipv6_len)','else if (binary_address.size() > ipv6_len + 1)'),
(H,'auto operator<=>(const ip_address& other) const = default;','auto operator<=>(const ip_address& other) const { return m_data <=> other.m_data; } auto operator==(const ip_address& other) const -> bool { return m_data == other.m_data; }'),
(H,'domain_t                      m_domain{domain_t::ipv4};\n    std::array<uint8_t, ipv6_len> m_data{};','std::array<uint8_t, ipv6_len> m_data{};\n domain_t                      m_domain{domain_t::ipv4};'),
(H,'auto operator<=>(const ip_address& other) const = default;','auto operator<=>(const ip_address& other) const { auto c = (int)m_domain <=> (int)other.m_domain; if (c != 0) return c; return std::strong_ordering(memcmp(data().data(), other.data().data(), 4) <=> 0); } auto operator==(const ip_address& other) const -> bool { return m_domain == other.m_domain && m_data == other.m_data; }'),
(S,'sin6->sin6_port   = htons(port);','sin6->sin6_port   = port;'),
(S,'            return ntohs(reinterpret_cast<const sockaddr_in6*>(&m_storage)->sin6_port);','            return reinterpret_cast<const sockaddr_in6*>(&m_storage)->sin6_port;'),
(S,'m_len = sizeof(sockaddr_in6);','m_len = sizeof(sockaddr_in);'),
(S,'m_len = sizeof(sockaddr_in);','m_len = sizeof(sockaddr_storage);'),
(S,'&& port() == other.port()',''),
(S,'m_len == other.m_len && domain() == other.domain() && port() == other.port() && ip() == other.ip()','m_len == other.m_len && memcmp(&m_storage, &other.m_storage, m_len) == 0'),
(S,'std::memcpy(&sin6->sin6_addr, ip.data().data(), sizeof(in6_addr))','std::memcpy(&sin6->sin6_addr, ip.data().data(), sizeof(in6_addr) - 1)'),
(S,'sizeof(sin6->sin6_addr)}, domain_t::ipv6}','sizeof(sin6->sin6_addr)}, domain_t::ipv4}'),
]
