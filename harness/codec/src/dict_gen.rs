// Written by tools/mkdict.py; an oracle: do not regenerate from changed dictionaries.
use super::dict::*;

pub fn attrs() -> Vec<A> {
    vec![
        a!(string 0 rfc2865 "User-Name" 1 USER_NAME_TYPE add_user_name lookup_user_name lookup_all_user_name delete_user_name),
        a!(userpw 0 rfc2865 "User-Password" 2 USER_PASSWORD_TYPE add_user_password lookup_user_password lookup_all_user_password delete_user_password),
        a!(octets 0 rfc2865 "CHAP-Password" 3 CHAP_PASSWORD_TYPE add_chap_password lookup_chap_password lookup_all_chap_password delete_chap_password),
        a!(ipv4 0 rfc2865 "NAS-IP-Address" 4 NAS_IP_ADDRESS_TYPE add_nas_ip_address lookup_nas_ip_address lookup_all_nas_ip_address delete_nas_ip_address),
        a!(integer 0 rfc2865 "NAS-Port" 5 NAS_PORT_TYPE add_nas_port lookup_nas_port lookup_all_nas_port delete_nas_port),
        a!(integer 0 rfc2865 "Service-Type" 6 SERVICE_TYPE_TYPE add_service_type lookup_service_type lookup_all_service_type delete_service_type),
        a!(integer 0 rfc2865 "Framed-Protocol" 7 FRAMED_PROTOCOL_TYPE add_framed_protocol lookup_framed_protocol lookup_all_framed_protocol delete_framed_protocol),
        a!(ipv4 0 rfc2865 "Framed-IP-Address" 8 FRAMED_IP_ADDRESS_TYPE add_framed_ip_address lookup_framed_ip_address lookup_all_framed_ip_address delete_framed_ip_address),
        a!(ipv4 0 rfc2865 "Framed-IP-Netmask" 9 FRAMED_IP_NETMASK_TYPE add_framed_ip_netmask lookup_framed_ip_netmask lookup_all_framed_ip_netmask delete_framed_ip_netmask),
        a!(integer 0 rfc2865 "Framed-Routing" 10 FRAMED_ROUTING_TYPE add_framed_routing lookup_framed_routing lookup_all_framed_routing delete_framed_routing),
        a!(string 0 rfc2865 "Filter-Id" 11 FILTER_ID_TYPE add_filter_id lookup_filter_id lookup_all_filter_id delete_filter_id),
        a!(integer 0 rfc2865 "Framed-MTU" 12 FRAMED_MTU_TYPE add_framed_mtu lookup_framed_mtu lookup_all_framed_mtu delete_framed_mtu),
        a!(integer 0 rfc2865 "Framed-Compression" 13 FRAMED_COMPRESSION_TYPE add_framed_compression lookup_framed_compression lookup_all_framed_compression delete_framed_compression),
        a!(ipv4 0 rfc2865 "Login-IP-Host" 14 LOGIN_IP_HOST_TYPE add_login_ip_host lookup_login_ip_host lookup_all_login_ip_host delete_login_ip_host),
        a!(integer 0 rfc2865 "Login-Service" 15 LOGIN_SERVICE_TYPE add_login_service lookup_login_service lookup_all_login_service delete_login_service),
        a!(integer 0 rfc2865 "Login-TCP-Port" 16 LOGIN_TCP_PORT_TYPE add_login_tcp_port lookup_login_tcp_port lookup_all_login_tcp_port delete_login_tcp_port),
        a!(string 0 rfc2865 "Reply-Message" 18 REPLY_MESSAGE_TYPE add_reply_message lookup_reply_message lookup_all_reply_message delete_reply_message),
        a!(string 0 rfc2865 "Callback-Number" 19 CALLBACK_NUMBER_TYPE add_callback_number lookup_callback_number lookup_all_callback_number delete_callback_number),
        a!(string 0 rfc2865 "Callback-Id" 20 CALLBACK_ID_TYPE add_callback_id lookup_callback_id lookup_all_callback_id delete_callback_id),
        a!(string 0 rfc2865 "Framed-Route" 22 FRAMED_ROUTE_TYPE add_framed_route lookup_framed_route lookup_all_framed_route delete_framed_route),
        a!(ipv4 0 rfc2865 "Framed-IPX-Network" 23 FRAMED_IPX_NETWORK_TYPE add_framed_ipx_network lookup_framed_ipx_network lookup_all_framed_ipx_network delete_framed_ipx_network),
        a!(octets 0 rfc2865 "State" 24 STATE_TYPE add_state lookup_state lookup_all_state delete_state),
        a!(octets 0 rfc2865 "Class" 25 CLASS_TYPE add_class lookup_class lookup_all_class delete_class),
        a!(vsa 0 rfc2865 "Vendor-Specific" 26 VENDOR_SPECIFIC_TYPE delete_vendor_specific),
        a!(integer 0 rfc2865 "Session-Timeout" 27 SESSION_TIMEOUT_TYPE add_session_timeout lookup_session_timeout lookup_all_session_timeout delete_session_timeout),
        a!(integer 0 rfc2865 "Idle-Timeout" 28 IDLE_TIMEOUT_TYPE add_idle_timeout lookup_idle_timeout lookup_all_idle_timeout delete_idle_timeout),
        a!(integer 0 rfc2865 "Termination-Action" 29 TERMINATION_ACTION_TYPE add_termination_action lookup_termination_action lookup_all_termination_action delete_termination_action),
        a!(string 0 rfc2865 "Called-Station-Id" 30 CALLED_STATION_ID_TYPE add_called_station_id lookup_called_station_id lookup_all_called_station_id delete_called_station_id),
        a!(string 0 rfc2865 "Calling-Station-Id" 31 CALLING_STATION_ID_TYPE add_calling_station_id lookup_calling_station_id lookup_all_calling_station_id delete_calling_station_id),
        a!(string 0 rfc2865 "NAS-Identifier" 32 NAS_IDENTIFIER_TYPE add_nas_identifier lookup_nas_identifier lookup_all_nas_identifier delete_nas_identifier),
        a!(octets 0 rfc2865 "Proxy-State" 33 PROXY_STATE_TYPE add_proxy_state lookup_proxy_state lookup_all_proxy_state delete_proxy_state),
        a!(string 0 rfc2865 "Login-LAT-Service" 34 LOGIN_LAT_SERVICE_TYPE add_login_lat_service lookup_login_lat_service lookup_all_login_lat_service delete_login_lat_service),
        a!(string 0 rfc2865 "Login-LAT-Node" 35 LOGIN_LAT_NODE_TYPE add_login_lat_node lookup_login_lat_node lookup_all_login_lat_node delete_login_lat_node),
        a!(octets 0 rfc2865 "Login-LAT-Group" 36 LOGIN_LAT_GROUP_TYPE add_login_lat_group lookup_login_lat_group lookup_all_login_lat_group delete_login_lat_group),
        a!(integer 0 rfc2865 "Framed-AppleTalk-Link" 37 FRAMED_APPLE_TALK_LINK_TYPE add_framed_apple_talk_link lookup_framed_apple_talk_link lookup_all_framed_apple_talk_link delete_framed_apple_talk_link),
        a!(integer 0 rfc2865 "Framed-AppleTalk-Network" 38 FRAMED_APPLE_TALK_NETWORK_TYPE add_framed_apple_talk_network lookup_framed_apple_talk_network lookup_all_framed_apple_talk_network delete_framed_apple_talk_network),
        a!(string 0 rfc2865 "Framed-AppleTalk-Zone" 39 FRAMED_APPLE_TALK_ZONE_TYPE add_framed_apple_talk_zone lookup_framed_apple_talk_zone lookup_all_framed_apple_talk_zone delete_framed_apple_talk_zone),
        a!(octets 0 rfc2865 "CHAP-Challenge" 60 CHAP_CHALLENGE_TYPE add_chap_challenge lookup_chap_challenge lookup_all_chap_challenge delete_chap_challenge),
        a!(integer 0 rfc2865 "NAS-Port-Type" 61 NAS_PORT_TYPE_TYPE add_nas_port_type lookup_nas_port_type lookup_all_nas_port_type delete_nas_port_type),
        a!(integer 0 rfc2865 "Port-Limit" 62 PORT_LIMIT_TYPE add_port_limit lookup_port_limit lookup_all_port_limit delete_port_limit),
        a!(string 0 rfc2865 "Login-LAT-Port" 63 LOGIN_LAT_PORT_TYPE add_login_lat_port lookup_login_lat_port lookup_all_login_lat_port delete_login_lat_port),
        a!(integer 0 rfc2866 "Acct-Status-Type" 40 ACCT_STATUS_TYPE_TYPE add_acct_status_type lookup_acct_status_type lookup_all_acct_status_type delete_acct_status_type),
        a!(integer 0 rfc2866 "Acct-Delay-Time" 41 ACCT_DELAY_TIME_TYPE add_acct_delay_time lookup_acct_delay_time lookup_all_acct_delay_time delete_acct_delay_time),
        a!(integer 0 rfc2866 "Acct-Input-Octets" 42 ACCT_INPUT_OCTETS_TYPE add_acct_input_octets lookup_acct_input_octets lookup_all_acct_input_octets delete_acct_input_octets),
        a!(integer 0 rfc2866 "Acct-Output-Octets" 43 ACCT_OUTPUT_OCTETS_TYPE add_acct_output_octets lookup_acct_output_octets lookup_all_acct_output_octets delete_acct_output_octets),
        a!(string 0 rfc2866 "Acct-Session-Id" 44 ACCT_SESSION_ID_TYPE add_acct_session_id lookup_acct_session_id lookup_all_acct_session_id delete_acct_session_id),
        a!(integer 0 rfc2866 "Acct-Authentic" 45 ACCT_AUTHENTIC_TYPE add_acct_authentic lookup_acct_authentic lookup_all_acct_authentic delete_acct_authentic),
        a!(integer 0 rfc2866 "Acct-Session-Time" 46 ACCT_SESSION_TIME_TYPE add_acct_session_time lookup_acct_session_time lookup_all_acct_session_time delete_acct_session_time),
        a!(integer 0 rfc2866 "Acct-Input-Packets" 47 ACCT_INPUT_PACKETS_TYPE add_acct_input_packets lookup_acct_input_packets lookup_all_acct_input_packets delete_acct_input_packets),
        a!(integer 0 rfc2866 "Acct-Output-Packets" 48 ACCT_OUTPUT_PACKETS_TYPE add_acct_output_packets lookup_acct_output_packets lookup_all_acct_output_packets delete_acct_output_packets),
        a!(integer 0 rfc2866 "Acct-Terminate-Cause" 49 ACCT_TERMINATE_CAUSE_TYPE add_acct_terminate_cause lookup_acct_terminate_cause lookup_all_acct_terminate_cause delete_acct_terminate_cause),
        a!(string 0 rfc2866 "Acct-Multi-Session-Id" 50 ACCT_MULTI_SESSION_ID_TYPE add_acct_multi_session_id lookup_acct_multi_session_id lookup_all_acct_multi_session_id delete_acct_multi_session_id),
        a!(integer 0 rfc2866 "Acct-Link-Count" 51 ACCT_LINK_COUNT_TYPE add_acct_link_count lookup_acct_link_count lookup_all_acct_link_count delete_acct_link_count),
        a!(string 0 rfc2867 "Acct-Tunnel-Connection" 68 ACCT_TUNNEL_CONNECTION_TYPE add_acct_tunnel_connection lookup_acct_tunnel_connection lookup_all_acct_tunnel_connection delete_acct_tunnel_connection),
        a!(integer 0 rfc2867 "Acct-Tunnel-Packets-Lost" 86 ACCT_TUNNEL_PACKETS_LOST_TYPE add_acct_tunnel_packets_lost lookup_acct_tunnel_packets_lost lookup_all_acct_tunnel_packets_lost delete_acct_tunnel_packets_lost),
        a!(tinteger 0 rfc2868 "Tunnel-Type" 64 TUNNEL_TYPE_TYPE add_tunnel_type lookup_tunnel_type lookup_all_tunnel_type delete_tunnel_type),
        a!(tinteger 0 rfc2868 "Tunnel-Medium-Type" 65 TUNNEL_MEDIUM_TYPE_TYPE add_tunnel_medium_type lookup_tunnel_medium_type lookup_all_tunnel_medium_type delete_tunnel_medium_type),
        a!(tstring 0 rfc2868 "Tunnel-Client-Endpoint" 66 TUNNEL_CLIENT_ENDPOINT_TYPE add_tunnel_client_endpoint lookup_tunnel_client_endpoint lookup_all_tunnel_client_endpoint delete_tunnel_client_endpoint),
        a!(tstring 0 rfc2868 "Tunnel-Server-Endpoint" 67 TUNNEL_SERVER_ENDPOINT_TYPE add_tunnel_server_endpoint lookup_tunnel_server_endpoint lookup_all_tunnel_server_endpoint delete_tunnel_server_endpoint),
        a!(tunnelpw 0 rfc2868 "Tunnel-Password" 69 TUNNEL_PASSWORD_TYPE add_tunnel_password lookup_tunnel_password lookup_all_tunnel_password delete_tunnel_password),
        a!(tstring 0 rfc2868 "Tunnel-Private-Group-Id" 81 TUNNEL_PRIVATE_GROUP_ID_TYPE add_tunnel_private_group_id lookup_tunnel_private_group_id lookup_all_tunnel_private_group_id delete_tunnel_private_group_id),
        a!(tstring 0 rfc2868 "Tunnel-Assignment-Id" 82 TUNNEL_ASSIGNMENT_ID_TYPE add_tunnel_assignment_id lookup_tunnel_assignment_id lookup_all_tunnel_assignment_id delete_tunnel_assignment_id),
        a!(tinteger 0 rfc2868 "Tunnel-Preference" 83 TUNNEL_PREFERENCE_TYPE add_tunnel_preference lookup_tunnel_preference lookup_all_tunnel_preference delete_tunnel_preference),
        a!(tstring 0 rfc2868 "Tunnel-Client-Auth-Id" 90 TUNNEL_CLIENT_AUTH_ID_TYPE add_tunnel_client_auth_id lookup_tunnel_client_auth_id lookup_all_tunnel_client_auth_id delete_tunnel_client_auth_id),
        a!(tstring 0 rfc2868 "Tunnel-Server-Auth-Id" 91 TUNNEL_SERVER_AUTH_ID_TYPE add_tunnel_server_auth_id lookup_tunnel_server_auth_id lookup_all_tunnel_server_auth_id delete_tunnel_server_auth_id),
        a!(integer 0 rfc2869 "Acct-Input-Gigawords" 52 ACCT_INPUT_GIGAWORDS_TYPE add_acct_input_gigawords lookup_acct_input_gigawords lookup_all_acct_input_gigawords delete_acct_input_gigawords),
        a!(integer 0 rfc2869 "Acct-Output-Gigawords" 53 ACCT_OUTPUT_GIGAWORDS_TYPE add_acct_output_gigawords lookup_acct_output_gigawords lookup_all_acct_output_gigawords delete_acct_output_gigawords),
        a!(date 0 rfc2869 "Event-Timestamp" 55 EVENT_TIMESTAMP_TYPE add_event_timestamp lookup_event_timestamp lookup_all_event_timestamp delete_event_timestamp),
        a!(fixed 16 rfc2869 "ARAP-Password" 70 ARAP_PASSWORD_TYPE add_arap_password lookup_arap_password lookup_all_arap_password delete_arap_password),
        a!(fixed 14 rfc2869 "ARAP-Features" 71 ARAP_FEATURES_TYPE add_arap_features lookup_arap_features lookup_all_arap_features delete_arap_features),
        a!(integer 0 rfc2869 "ARAP-Zone-Access" 72 ARAP_ZONE_ACCESS_TYPE add_arap_zone_access lookup_arap_zone_access lookup_all_arap_zone_access delete_arap_zone_access),
        a!(integer 0 rfc2869 "ARAP-Security" 73 ARAP_SECURITY_TYPE add_arap_security lookup_arap_security lookup_all_arap_security delete_arap_security),
        a!(string 0 rfc2869 "ARAP-Security-Data" 74 ARAP_SECURITY_DATA_TYPE add_arap_security_data lookup_arap_security_data lookup_all_arap_security_data delete_arap_security_data),
        a!(integer 0 rfc2869 "Password-Retry" 75 PASSWORD_RETRY_TYPE add_password_retry lookup_password_retry lookup_all_password_retry delete_password_retry),
        a!(integer 0 rfc2869 "Prompt" 76 PROMPT_TYPE add_prompt lookup_prompt lookup_all_prompt delete_prompt),
        a!(string 0 rfc2869 "Connect-Info" 77 CONNECT_INFO_TYPE add_connect_info lookup_connect_info lookup_all_connect_info delete_connect_info),
        a!(string 0 rfc2869 "Configuration-Token" 78 CONFIGURATION_TOKEN_TYPE add_configuration_token lookup_configuration_token lookup_all_configuration_token delete_configuration_token),
        a!(concat 0 rfc2869 "EAP-Message" 79 EAP_MESSAGE_TYPE add_eap_message lookup_eap_message delete_eap_message),
        a!(octets 0 rfc2869 "Message-Authenticator" 80 MESSAGE_AUTHENTICATOR_TYPE add_message_authenticator lookup_message_authenticator lookup_all_message_authenticator delete_message_authenticator),
        a!(fixed 8 rfc2869 "ARAP-Challenge-Response" 84 ARAP_CHALLENGE_RESPONSE_TYPE add_arap_challenge_response lookup_arap_challenge_response lookup_all_arap_challenge_response delete_arap_challenge_response),
        a!(integer 0 rfc2869 "Acct-Interim-Interval" 85 ACCT_INTERIM_INTERVAL_TYPE add_acct_interim_interval lookup_acct_interim_interval lookup_all_acct_interim_interval delete_acct_interim_interval),
        a!(string 0 rfc2869 "NAS-Port-Id" 87 NAS_PORT_ID_TYPE add_nas_port_id lookup_nas_port_id lookup_all_nas_port_id delete_nas_port_id),
        a!(string 0 rfc2869 "Framed-Pool" 88 FRAMED_POOL_TYPE add_framed_pool lookup_framed_pool lookup_all_framed_pool delete_framed_pool),
        a!(ipv6 0 rfc3162 "NAS-IPV6-Address" 95 NAS_IPV6_ADDRESS_TYPE add_nas_ipv6_address lookup_nas_ipv6_address lookup_all_nas_ipv6_address delete_nas_ipv6_address),
        a!(fixed 8 rfc3162 "Framed-Interface-Id" 96 FRAMED_INTERFACE_ID_TYPE add_framed_interface_id lookup_framed_interface_id lookup_all_framed_interface_id delete_framed_interface_id),
        a!(ipv6prefix 0 rfc3162 "Framed-IPV6-Prefix" 97 FRAMED_IPV6_PREFIX_TYPE add_framed_ipv6_prefix lookup_framed_ipv6_prefix lookup_all_framed_ipv6_prefix delete_framed_ipv6_prefix),
        a!(ipv6 0 rfc3162 "Login-IPV6-Host" 98 LOGIN_IPV6_HOST_TYPE add_login_ipv6_host lookup_login_ipv6_host lookup_all_login_ipv6_host delete_login_ipv6_host),
        a!(string 0 rfc3162 "Framed-IPV6-Route" 99 FRAMED_IPV6_ROUTE_TYPE add_framed_ipv6_route lookup_framed_ipv6_route lookup_all_framed_ipv6_route delete_framed_ipv6_route),
        a!(string 0 rfc3162 "Framed-IPV6-Pool" 100 FRAMED_IPV6_POOL_TYPE add_framed_ipv6_pool lookup_framed_ipv6_pool lookup_all_framed_ipv6_pool delete_framed_ipv6_pool),
        a!(integer 0 rfc3576 "Error-Cause" 101 ERROR_CAUSE_TYPE add_error_cause lookup_error_cause lookup_all_error_cause delete_error_cause),
        a!(octets 0 rfc4072 "EAP-Key-Name" 102 EAP_KEY_NAME_TYPE add_eap_key_name lookup_eap_key_name lookup_all_eap_key_name delete_eap_key_name),
        a!(octets 0 rfc4372 "Chargeable-User-Identity" 89 CHARGEABLE_USER_IDENTITY_TYPE add_chargeable_user_identity lookup_chargeable_user_identity lookup_all_chargeable_user_identity delete_chargeable_user_identity),
        a!(integer 0 rfc4675 "Egress-VLANID" 56 EGRESS_VLANID_TYPE add_egress_vlanid lookup_egress_vlanid lookup_all_egress_vlanid delete_egress_vlanid),
        a!(integer 0 rfc4675 "Ingress-Filters" 57 INGRESS_FILTERS_TYPE add_ingress_filters lookup_ingress_filters lookup_all_ingress_filters delete_ingress_filters),
        a!(string 0 rfc4675 "Egress-VLAN-Name" 58 EGRESS_VLAN_NAME_TYPE add_egress_vlan_name lookup_egress_vlan_name lookup_all_egress_vlan_name delete_egress_vlan_name),
        a!(octets 0 rfc4675 "User-Priority-Table" 59 USER_PRIORITY_TABLE_TYPE add_user_priority_table lookup_user_priority_table lookup_all_user_priority_table delete_user_priority_table),
        a!(ipv6prefix 0 rfc4818 "Delegated-IPV6-Prefix" 123 DELEGATED_IPV6_PREFIX_TYPE add_delegated_ipv6_prefix lookup_delegated_ipv6_prefix lookup_all_delegated_ipv6_prefix delete_delegated_ipv6_prefix),
        a!(string 0 rfc4849 "NAS-Filter-Rule" 92 NAS_FILTER_RULE_TYPE add_nas_filter_rule lookup_nas_filter_rule lookup_all_nas_filter_rule delete_nas_filter_rule),
        a!(string 0 rfc5090 "Digest-Response" 103 DIGEST_RESPONSE_TYPE add_digest_response lookup_digest_response lookup_all_digest_response delete_digest_response),
        a!(string 0 rfc5090 "Digest-Realm" 104 DIGEST_REALM_TYPE add_digest_realm lookup_digest_realm lookup_all_digest_realm delete_digest_realm),
        a!(string 0 rfc5090 "Digest-Nonce" 105 DIGEST_NONCE_TYPE add_digest_nonce lookup_digest_nonce lookup_all_digest_nonce delete_digest_nonce),
        a!(string 0 rfc5090 "Digest-Response-Auth" 106 DIGEST_RESPONSE_AUTH_TYPE add_digest_response_auth lookup_digest_response_auth lookup_all_digest_response_auth delete_digest_response_auth),
        a!(string 0 rfc5090 "Digest-Nextnonce" 107 DIGEST_NEXTNONCE_TYPE add_digest_nextnonce lookup_digest_nextnonce lookup_all_digest_nextnonce delete_digest_nextnonce),
        a!(string 0 rfc5090 "Digest-Method" 108 DIGEST_METHOD_TYPE add_digest_method lookup_digest_method lookup_all_digest_method delete_digest_method),
        a!(string 0 rfc5090 "Digest-URI" 109 DIGEST_URI_TYPE add_digest_uri lookup_digest_uri lookup_all_digest_uri delete_digest_uri),
        a!(string 0 rfc5090 "Digest-Qop" 110 DIGEST_QOP_TYPE add_digest_qop lookup_digest_qop lookup_all_digest_qop delete_digest_qop),
        a!(string 0 rfc5090 "Digest-Algorithm" 111 DIGEST_ALGORITHM_TYPE add_digest_algorithm lookup_digest_algorithm lookup_all_digest_algorithm delete_digest_algorithm),
        a!(string 0 rfc5090 "Digest-Entity-Body-Hash" 112 DIGEST_ENTITY_BODY_HASH_TYPE add_digest_entity_body_hash lookup_digest_entity_body_hash lookup_all_digest_entity_body_hash delete_digest_entity_body_hash),
        a!(string 0 rfc5090 "Digest-CNonce" 113 DIGEST_C_NONCE_TYPE add_digest_c_nonce lookup_digest_c_nonce lookup_all_digest_c_nonce delete_digest_c_nonce),
        a!(string 0 rfc5090 "Digest-Nonce-Count" 114 DIGEST_NONCE_COUNT_TYPE add_digest_nonce_count lookup_digest_nonce_count lookup_all_digest_nonce_count delete_digest_nonce_count),
        a!(string 0 rfc5090 "Digest-Username" 115 DIGEST_USERNAME_TYPE add_digest_username lookup_digest_username lookup_all_digest_username delete_digest_username),
        a!(string 0 rfc5090 "Digest-Opaque" 116 DIGEST_OPAQUE_TYPE add_digest_opaque lookup_digest_opaque lookup_all_digest_opaque delete_digest_opaque),
        a!(string 0 rfc5090 "Digest-Auth-Param" 117 DIGEST_AUTH_PARAM_TYPE add_digest_auth_param lookup_digest_auth_param lookup_all_digest_auth_param delete_digest_auth_param),
        a!(string 0 rfc5090 "Digest-AKA-Auts" 118 DIGEST_AKA_AUTS_TYPE add_digest_aka_auts lookup_digest_aka_auts lookup_all_digest_aka_auts delete_digest_aka_auts),
        a!(string 0 rfc5090 "Digest-Domain" 119 DIGEST_DOMAIN_TYPE add_digest_domain lookup_digest_domain lookup_all_digest_domain delete_digest_domain),
        a!(string 0 rfc5090 "Digest-Stale" 120 DIGEST_STALE_TYPE add_digest_stale lookup_digest_stale lookup_all_digest_stale delete_digest_stale),
        a!(string 0 rfc5090 "Digest-HA1" 121 DIGEST_HA1_TYPE add_digest_ha1 lookup_digest_ha1 lookup_all_digest_ha1 delete_digest_ha1),
        a!(string 0 rfc5090 "SIP-AOR" 122 SIP_AOR_TYPE add_sip_aor lookup_sip_aor lookup_all_sip_aor delete_sip_aor),
        a!(integer 0 rfc5607 "Framed-Management" 133 FRAMED_MANAGEMENT_TYPE add_framed_management lookup_framed_management lookup_all_framed_management delete_framed_management),
        a!(integer 0 rfc5607 "Management-Transport-Protection" 134 MANAGEMENT_TRANSPORT_PROTECTION_TYPE add_management_transport_protection lookup_management_transport_protection lookup_all_management_transport_protection delete_management_transport_protection),
        a!(string 0 rfc5607 "Management-Policy-Id" 135 MANAGEMENT_POLICY_ID_TYPE add_management_policy_id lookup_management_policy_id lookup_all_management_policy_id delete_management_policy_id),
        a!(integer 0 rfc5607 "Management-Privilege-Level" 136 MANAGEMENT_PRIVILEGE_LEVEL_TYPE add_management_privilege_level lookup_management_privilege_level lookup_all_management_privilege_level delete_management_privilege_level),
        a!(concat 0 rfc5904 "PKM-SS-Cert" 137 PKM_SS_CERT_TYPE add_pkm_ss_cert lookup_pkm_ss_cert delete_pkm_ss_cert),
        a!(concat 0 rfc5904 "PKM-CA-Cert" 138 PKM_CA_CERT_TYPE add_pkm_ca_cert lookup_pkm_ca_cert delete_pkm_ca_cert),
        a!(octets 0 rfc5904 "PKM-Config-Settings" 139 PKM_CONFIG_SETTINGS_TYPE add_pkm_config_settings lookup_pkm_config_settings lookup_all_pkm_config_settings delete_pkm_config_settings),
        a!(octets 0 rfc5904 "PKM-Cryptosuite-List" 140 PKM_CRYPTOSUITE_LIST_TYPE add_pkm_cryptosuite_list lookup_pkm_cryptosuite_list lookup_all_pkm_cryptosuite_list delete_pkm_cryptosuite_list),
        a!(short 0 rfc5904 "PKM-SAID" 141 PKM_SAID_TYPE add_pkm_said lookup_pkm_said lookup_all_pkm_said delete_pkm_said),
        a!(octets 0 rfc5904 "PKM-SA-Descriptor" 142 PKM_SA_DESCRIPTOR_TYPE add_pkm_sa_descriptor lookup_pkm_sa_descriptor lookup_all_pkm_sa_descriptor delete_pkm_sa_descriptor),
        a!(octets 0 rfc5904 "PKM-Auth-Key" 143 PKM_AUTH_KEY_TYPE add_pkm_auth_key lookup_pkm_auth_key lookup_all_pkm_auth_key delete_pkm_auth_key),
        a!(string 0 rfc6519 "DS-Lite-Tunnel-Name" 144 DS_LITE_TUNNEL_NAME_TYPE add_ds_lite_tunnel_name lookup_ds_lite_tunnel_name lookup_all_ds_lite_tunnel_name delete_ds_lite_tunnel_name),
        a!(octets 0 rfc6572 "Mobile-Node-Identifier" 145 MOBILE_NODE_IDENTIFIER_TYPE add_mobile_node_identifier lookup_mobile_node_identifier lookup_all_mobile_node_identifier delete_mobile_node_identifier),
        a!(string 0 rfc6572 "Service-Selection" 146 SERVICE_SELECTION_TYPE add_service_selection lookup_service_selection lookup_all_service_selection delete_service_selection),
        a!(ipv6 0 rfc6572 "PMIP6-Home-LMA-IPV6-Address" 147 PMIP6_HOME_LMA_IPV6_ADDRESS_TYPE add_pmip6_home_lma_ipv6_address lookup_pmip6_home_lma_ipv6_address lookup_all_pmip6_home_lma_ipv6_address delete_pmip6_home_lma_ipv6_address),
        a!(ipv6 0 rfc6572 "PMIP6-Visited-LMA-IPV6-Address" 148 PMIP6_VISITED_LMA_IPV6_ADDRESS_TYPE add_pmip6_visited_lma_ipv6_address lookup_pmip6_visited_lma_ipv6_address lookup_all_pmip6_visited_lma_ipv6_address delete_pmip6_visited_lma_ipv6_address),
        a!(ipv4 0 rfc6572 "PMIP6-Home-LMA-IPV4-Address" 149 PMIP6_HOME_LMA_IPV4_ADDRESS_TYPE add_pmip6_home_lma_ipv4_address lookup_pmip6_home_lma_ipv4_address lookup_all_pmip6_home_lma_ipv4_address delete_pmip6_home_lma_ipv4_address),
        a!(ipv4 0 rfc6572 "PMIP6-Visited-LMA-IPV4-Address" 150 PMIP6_VISITED_LMA_IPV4_ADDRESS_TYPE add_pmip6_visited_lma_ipv4_address lookup_pmip6_visited_lma_ipv4_address lookup_all_pmip6_visited_lma_ipv4_address delete_pmip6_visited_lma_ipv4_address),
        a!(ipv6prefix 0 rfc6572 "PMIP6-Home-HN-Prefix" 151 PMIP6_HOME_HN_PREFIX_TYPE add_pmip6_home_hn_prefix lookup_pmip6_home_hn_prefix lookup_all_pmip6_home_hn_prefix delete_pmip6_home_hn_prefix),
        a!(ipv6prefix 0 rfc6572 "PMIP6-Visited-HN-Prefix" 152 PMIP6_VISITED_HN_PREFIX_TYPE add_pmip6_visited_hn_prefix lookup_pmip6_visited_hn_prefix lookup_all_pmip6_visited_hn_prefix delete_pmip6_visited_hn_prefix),
        a!(fixed 8 rfc6572 "PMIP6-Home-Interface-ID" 153 PMIP6_HOME_INTERFACE_ID_TYPE add_pmip6_home_interface_id lookup_pmip6_home_interface_id lookup_all_pmip6_home_interface_id delete_pmip6_home_interface_id),
        a!(fixed 8 rfc6572 "PMIP6-Visited-Interface-ID" 154 PMIP6_VISITED_INTERFACE_ID_TYPE add_pmip6_visited_interface_id lookup_pmip6_visited_interface_id lookup_all_pmip6_visited_interface_id delete_pmip6_visited_interface_id),
        a!(ipv4prefix 0 rfc6572 "PMIP6-Home-IPV4-HoA" 155 PMIP6_HOME_IPV4_HO_A_TYPE add_pmip6_home_ipv4_ho_a lookup_pmip6_home_ipv4_ho_a lookup_all_pmip6_home_ipv4_ho_a delete_pmip6_home_ipv4_ho_a),
        a!(ipv4prefix 0 rfc6572 "PMIP6-Visited-IPV4-HoA" 156 PMIP6_VISITED_IPV4_HO_A_TYPE add_pmip6_visited_ipv4_ho_a lookup_pmip6_visited_ipv4_ho_a lookup_all_pmip6_visited_ipv4_ho_a delete_pmip6_visited_ipv4_ho_a),
        a!(ipv4 0 rfc6572 "PMIP6-Home-DHCP4-Server-Address" 157 PMIP6_HOME_DHCP4_SERVER_ADDRESS_TYPE add_pmip6_home_dhcp4_server_address lookup_pmip6_home_dhcp4_server_address lookup_all_pmip6_home_dhcp4_server_address delete_pmip6_home_dhcp4_server_address),
        a!(ipv4 0 rfc6572 "PMIP6-Visited-DHCP4-Server-Address" 158 PMIP6_VISITED_DHCP4_SERVER_ADDRESS_TYPE add_pmip6_visited_dhcp4_server_address lookup_pmip6_visited_dhcp4_server_address lookup_all_pmip6_visited_dhcp4_server_address delete_pmip6_visited_dhcp4_server_address),
        a!(ipv6 0 rfc6572 "PMIP6-Home-DHCP6-Server-Address" 159 PMIP6_HOME_DHCP6_SERVER_ADDRESS_TYPE add_pmip6_home_dhcp6_server_address lookup_pmip6_home_dhcp6_server_address lookup_all_pmip6_home_dhcp6_server_address delete_pmip6_home_dhcp6_server_address),
        a!(ipv6 0 rfc6572 "PMIP6-Visited-DHCP6-Server-Address" 160 PMIP6_VISITED_DHCP6_SERVER_ADDRESS_TYPE add_pmip6_visited_dhcp6_server_address lookup_pmip6_visited_dhcp6_server_address lookup_all_pmip6_visited_dhcp6_server_address delete_pmip6_visited_dhcp6_server_address),
        a!(ipv4 0 rfc6572 "PMIP6-Home-IPV4-Gateway" 161 PMIP6_HOME_IPV4_GATEWAY_TYPE add_pmip6_home_ipv4_gateway lookup_pmip6_home_ipv4_gateway lookup_all_pmip6_home_ipv4_gateway delete_pmip6_home_ipv4_gateway),
        a!(ipv4 0 rfc6572 "PMIP6-Visited-IPV4-Gateway" 162 PMIP6_VISITED_IPV4_GATEWAY_TYPE add_pmip6_visited_ipv4_gateway lookup_pmip6_visited_ipv4_gateway lookup_all_pmip6_visited_ipv4_gateway delete_pmip6_visited_ipv4_gateway),
        a!(integer 0 rfc6677 "EAP-Lower-Layer" 163 EAP_LOWER_LAYER_TYPE add_eap_lower_layer lookup_eap_lower_layer lookup_all_eap_lower_layer delete_eap_lower_layer),
        a!(ipv6 0 rfc6911 "Framed-IPV6-Address" 168 FRAMED_IPV6_ADDRESS_TYPE add_framed_ipv6_address lookup_framed_ipv6_address lookup_all_framed_ipv6_address delete_framed_ipv6_address),
        a!(ipv6 0 rfc6911 "DNS-Server-IPV6-Address" 169 DNS_SERVER_IPV6_ADDRESS_TYPE add_dns_server_ipv6_address lookup_dns_server_ipv6_address lookup_all_dns_server_ipv6_address delete_dns_server_ipv6_address),
        a!(ipv6prefix 0 rfc6911 "Route-IPV6-Information" 170 ROUTE_IPV6_INFORMATION_TYPE add_route_ipv6_information lookup_route_ipv6_information lookup_all_route_ipv6_information delete_route_ipv6_information),
        a!(string 0 rfc6911 "Delegated-IPV6-Prefix-Pool" 171 DELEGATED_IPV6_PREFIX_POOL_TYPE add_delegated_ipv6_prefix_pool lookup_delegated_ipv6_prefix_pool lookup_all_delegated_ipv6_prefix_pool delete_delegated_ipv6_prefix_pool),
        a!(string 0 rfc6911 "Stateful-IPV6-Address-Pool" 172 STATEFUL_IPV6_ADDRESS_POOL_TYPE add_stateful_ipv6_address_pool lookup_stateful_ipv6_address_pool lookup_all_stateful_ipv6_address_pool delete_stateful_ipv6_address_pool),
        a!(string 0 rfc7055 "GSS-Acceptor-Service-Name" 164 GSS_ACCEPTOR_SERVICE_NAME_TYPE add_gss_acceptor_service_name lookup_gss_acceptor_service_name lookup_all_gss_acceptor_service_name delete_gss_acceptor_service_name),
        a!(string 0 rfc7055 "GSS-Acceptor-Host-Name" 165 GSS_ACCEPTOR_HOST_NAME_TYPE add_gss_acceptor_host_name lookup_gss_acceptor_host_name lookup_all_gss_acceptor_host_name delete_gss_acceptor_host_name),
        a!(string 0 rfc7055 "GSS-Acceptor-Service-Specifics" 166 GSS_ACCEPTOR_SERVICE_SPECIFICS_TYPE add_gss_acceptor_service_specifics lookup_gss_acceptor_service_specifics lookup_all_gss_acceptor_service_specifics delete_gss_acceptor_service_specifics),
        a!(string 0 rfc7055 "GSS-Acceptor-Realm-Name" 167 GSS_ACCEPTOR_REALM_NAME_TYPE add_gss_acceptor_realm_name lookup_gss_acceptor_realm_name lookup_all_gss_acceptor_realm_name delete_gss_acceptor_realm_name),
        a!(fixed 2 rfc7155 "Originating-Line-Info" 94 ORIGINATING_LINE_INFO_TYPE add_originating_line_info lookup_originating_line_info lookup_all_originating_line_info delete_originating_line_info),
    ]
}

/// module, attribute, value name, registered number, constant
pub fn values() -> Vec<(&'static str, &'static str, &'static str, u64, u64)> {
    vec![
        ("rfc2865", "Framed-Compression", "None", 0, radius::core::rfc2865::FRAMED_COMPRESSION_NONE as u64),
        ("rfc2865", "Framed-Compression", "Van-Jacobson-TCP-IP", 1, radius::core::rfc2865::FRAMED_COMPRESSION_VAN_JACOBSON_TCP_IP as u64),
        ("rfc2865", "Framed-Compression", "IPX-Header-Compression", 2, radius::core::rfc2865::FRAMED_COMPRESSION_IPX_HEADER_COMPRESSION as u64),
        ("rfc2865", "Framed-Compression", "Stac-LZS", 3, radius::core::rfc2865::FRAMED_COMPRESSION_STAC_LZS as u64),
        ("rfc2865", "Framed-Protocol", "PPP", 1, radius::core::rfc2865::FRAMED_PROTOCOL_PPP as u64),
        ("rfc2865", "Framed-Protocol", "SLIP", 2, radius::core::rfc2865::FRAMED_PROTOCOL_SLIP as u64),
        ("rfc2865", "Framed-Protocol", "ARAP", 3, radius::core::rfc2865::FRAMED_PROTOCOL_ARAP as u64),
        ("rfc2865", "Framed-Protocol", "Gandalf-SLML", 4, radius::core::rfc2865::FRAMED_PROTOCOL_GANDALF_SLML as u64),
        ("rfc2865", "Framed-Protocol", "Xylogics-IPX-SLIP", 5, radius::core::rfc2865::FRAMED_PROTOCOL_XYLOGICS_IPX_SLIP as u64),
        ("rfc2865", "Framed-Protocol", "X.75-Synchronous", 6, radius::core::rfc2865::FRAMED_PROTOCOL_X_75_SYNCHRONOUS as u64),
        ("rfc2865", "Framed-Routing", "None", 0, radius::core::rfc2865::FRAMED_ROUTING_NONE as u64),
        ("rfc2865", "Framed-Routing", "Broadcast", 1, radius::core::rfc2865::FRAMED_ROUTING_BROADCAST as u64),
        ("rfc2865", "Framed-Routing", "Listen", 2, radius::core::rfc2865::FRAMED_ROUTING_LISTEN as u64),
        ("rfc2865", "Framed-Routing", "Broadcast-Listen", 3, radius::core::rfc2865::FRAMED_ROUTING_BROADCAST_LISTEN as u64),
        ("rfc2865", "Login-Service", "Telnet", 0, radius::core::rfc2865::LOGIN_SERVICE_TELNET as u64),
        ("rfc2865", "Login-Service", "Rlogin", 1, radius::core::rfc2865::LOGIN_SERVICE_RLOGIN as u64),
        ("rfc2865", "Login-Service", "TCP-Clear", 2, radius::core::rfc2865::LOGIN_SERVICE_TCP_CLEAR as u64),
        ("rfc2865", "Login-Service", "PortMaster", 3, radius::core::rfc2865::LOGIN_SERVICE_PORT_MASTER as u64),
        ("rfc2865", "Login-Service", "LAT", 4, radius::core::rfc2865::LOGIN_SERVICE_LAT as u64),
        ("rfc2865", "Login-Service", "X25-PAD", 5, radius::core::rfc2865::LOGIN_SERVICE_X25_PAD as u64),
        ("rfc2865", "Login-Service", "X25-T3POS", 6, radius::core::rfc2865::LOGIN_SERVICE_X25_T3POS as u64),
        ("rfc2865", "Login-Service", "TCP-Clear-Quiet", 8, radius::core::rfc2865::LOGIN_SERVICE_TCP_CLEAR_QUIET as u64),
        ("rfc2865", "Login-TCP-Port", "Telnet", 23, radius::core::rfc2865::LOGIN_TCP_PORT_TELNET as u64),
        ("rfc2865", "Login-TCP-Port", "Rlogin", 513, radius::core::rfc2865::LOGIN_TCP_PORT_RLOGIN as u64),
        ("rfc2865", "Login-TCP-Port", "Rsh", 514, radius::core::rfc2865::LOGIN_TCP_PORT_RSH as u64),
        ("rfc2865", "NAS-Port-Type", "Async", 0, radius::core::rfc2865::NAS_PORT_TYPE_ASYNC as u64),
        ("rfc2865", "NAS-Port-Type", "Sync", 1, radius::core::rfc2865::NAS_PORT_TYPE_SYNC as u64),
        ("rfc2865", "NAS-Port-Type", "ISDN", 2, radius::core::rfc2865::NAS_PORT_TYPE_ISDN as u64),
        ("rfc2865", "NAS-Port-Type", "ISDN-V120", 3, radius::core::rfc2865::NAS_PORT_TYPE_ISDN_V120 as u64),
        ("rfc2865", "NAS-Port-Type", "ISDN-V110", 4, radius::core::rfc2865::NAS_PORT_TYPE_ISDN_V110 as u64),
        ("rfc2865", "NAS-Port-Type", "Virtual", 5, radius::core::rfc2865::NAS_PORT_TYPE_VIRTUAL as u64),
        ("rfc2865", "NAS-Port-Type", "PIAFS", 6, radius::core::rfc2865::NAS_PORT_TYPE_PIAFS as u64),
        ("rfc2865", "NAS-Port-Type", "HDLC-Clear-Channel", 7, radius::core::rfc2865::NAS_PORT_TYPE_HDLC_CLEAR_CHANNEL as u64),
        ("rfc2865", "NAS-Port-Type", "X.25", 8, radius::core::rfc2865::NAS_PORT_TYPE_X_25 as u64),
        ("rfc2865", "NAS-Port-Type", "X.75", 9, radius::core::rfc2865::NAS_PORT_TYPE_X_75 as u64),
        ("rfc2865", "NAS-Port-Type", "G.3-Fax", 10, radius::core::rfc2865::NAS_PORT_TYPE_G_3_FAX as u64),
        ("rfc2865", "NAS-Port-Type", "SDSL", 11, radius::core::rfc2865::NAS_PORT_TYPE_SDSL as u64),
        ("rfc2865", "NAS-Port-Type", "ADSL-CAP", 12, radius::core::rfc2865::NAS_PORT_TYPE_ADSL_CAP as u64),
        ("rfc2865", "NAS-Port-Type", "ADSL-DMT", 13, radius::core::rfc2865::NAS_PORT_TYPE_ADSL_DMT as u64),
        ("rfc2865", "NAS-Port-Type", "IDSL", 14, radius::core::rfc2865::NAS_PORT_TYPE_IDSL as u64),
        ("rfc2865", "NAS-Port-Type", "Ethernet", 15, radius::core::rfc2865::NAS_PORT_TYPE_ETHERNET as u64),
        ("rfc2865", "NAS-Port-Type", "xDSL", 16, radius::core::rfc2865::NAS_PORT_TYPE_X_DSL as u64),
        ("rfc2865", "NAS-Port-Type", "Cable", 17, radius::core::rfc2865::NAS_PORT_TYPE_CABLE as u64),
        ("rfc2865", "NAS-Port-Type", "Wireless-Other", 18, radius::core::rfc2865::NAS_PORT_TYPE_WIRELESS_OTHER as u64),
        ("rfc2865", "NAS-Port-Type", "Wireless-802.11", 19, radius::core::rfc2865::NAS_PORT_TYPE_WIRELESS_802_11 as u64),
        ("rfc2865", "Service-Type", "Login-User", 1, radius::core::rfc2865::SERVICE_TYPE_LOGIN_USER as u64),
        ("rfc2865", "Service-Type", "Framed-User", 2, radius::core::rfc2865::SERVICE_TYPE_FRAMED_USER as u64),
        ("rfc2865", "Service-Type", "Callback-Login-User", 3, radius::core::rfc2865::SERVICE_TYPE_CALLBACK_LOGIN_USER as u64),
        ("rfc2865", "Service-Type", "Callback-Framed-User", 4, radius::core::rfc2865::SERVICE_TYPE_CALLBACK_FRAMED_USER as u64),
        ("rfc2865", "Service-Type", "Outbound-User", 5, radius::core::rfc2865::SERVICE_TYPE_OUTBOUND_USER as u64),
        ("rfc2865", "Service-Type", "Administrative-User", 6, radius::core::rfc2865::SERVICE_TYPE_ADMINISTRATIVE_USER as u64),
        ("rfc2865", "Service-Type", "NAS-Prompt-User", 7, radius::core::rfc2865::SERVICE_TYPE_NAS_PROMPT_USER as u64),
        ("rfc2865", "Service-Type", "Authenticate-Only", 8, radius::core::rfc2865::SERVICE_TYPE_AUTHENTICATE_ONLY as u64),
        ("rfc2865", "Service-Type", "Callback-NAS-Prompt", 9, radius::core::rfc2865::SERVICE_TYPE_CALLBACK_NAS_PROMPT as u64),
        ("rfc2865", "Service-Type", "Call-Check", 10, radius::core::rfc2865::SERVICE_TYPE_CALL_CHECK as u64),
        ("rfc2865", "Service-Type", "Callback-Administrative", 11, radius::core::rfc2865::SERVICE_TYPE_CALLBACK_ADMINISTRATIVE as u64),
        ("rfc2865", "Termination-Action", "Default", 0, radius::core::rfc2865::TERMINATION_ACTION_DEFAULT as u64),
        ("rfc2865", "Termination-Action", "RADIUS-Request", 1, radius::core::rfc2865::TERMINATION_ACTION_RADIUS_REQUEST as u64),
        ("rfc2866", "Acct-Authentic", "RADIUS", 1, radius::core::rfc2866::ACCT_AUTHENTIC_RADIUS as u64),
        ("rfc2866", "Acct-Authentic", "Local", 2, radius::core::rfc2866::ACCT_AUTHENTIC_LOCAL as u64),
        ("rfc2866", "Acct-Authentic", "Remote", 3, radius::core::rfc2866::ACCT_AUTHENTIC_REMOTE as u64),
        ("rfc2866", "Acct-Authentic", "Diameter", 4, radius::core::rfc2866::ACCT_AUTHENTIC_DIAMETER as u64),
        ("rfc2866", "Acct-Status-Type", "Start", 1, radius::core::rfc2866::ACCT_STATUS_TYPE_START as u64),
        ("rfc2866", "Acct-Status-Type", "Stop", 2, radius::core::rfc2866::ACCT_STATUS_TYPE_STOP as u64),
        ("rfc2866", "Acct-Status-Type", "Alive", 3, radius::core::rfc2866::ACCT_STATUS_TYPE_ALIVE as u64),
        ("rfc2866", "Acct-Status-Type", "Interim-Update", 3, radius::core::rfc2866::ACCT_STATUS_TYPE_INTERIM_UPDATE as u64),
        ("rfc2866", "Acct-Status-Type", "Accounting-On", 7, radius::core::rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_ON as u64),
        ("rfc2866", "Acct-Status-Type", "Accounting-Off", 8, radius::core::rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_OFF as u64),
        ("rfc2866", "Acct-Status-Type", "Failed", 15, radius::core::rfc2866::ACCT_STATUS_TYPE_FAILED as u64),
        ("rfc2866", "Acct-Terminate-Cause", "User-Request", 1, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_USER_REQUEST as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Lost-Carrier", 2, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_LOST_CARRIER as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Lost-Service", 3, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_LOST_SERVICE as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Idle-Timeout", 4, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_IDLE_TIMEOUT as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Session-Timeout", 5, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_SESSION_TIMEOUT as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Admin-Reset", 6, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_RESET as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Admin-Reboot", 7, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_REBOOT as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Port-Error", 8, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_PORT_ERROR as u64),
        ("rfc2866", "Acct-Terminate-Cause", "NAS-Error", 9, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_NAS_ERROR as u64),
        ("rfc2866", "Acct-Terminate-Cause", "NAS-Request", 10, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_NAS_REQUEST as u64),
        ("rfc2866", "Acct-Terminate-Cause", "NAS-Reboot", 11, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_NAS_REBOOT as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Port-Unneeded", 12, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_PORT_UNNEEDED as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Port-Preempted", 13, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_PORT_PREEMPTED as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Port-Suspended", 14, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_PORT_SUSPENDED as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Service-Unavailable", 15, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_SERVICE_UNAVAILABLE as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Callback", 16, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_CALLBACK as u64),
        ("rfc2866", "Acct-Terminate-Cause", "User-Error", 17, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_USER_ERROR as u64),
        ("rfc2866", "Acct-Terminate-Cause", "Host-Request", 18, radius::core::rfc2866::ACCT_TERMINATE_CAUSE_HOST_REQUEST as u64),
        ("rfc2867", "Acct-Status-Type", "Tunnel-Start", 9, radius::core::rfc2867::ACCT_STATUS_TYPE_TUNNEL_START as u64),
        ("rfc2867", "Acct-Status-Type", "Tunnel-Stop", 10, radius::core::rfc2867::ACCT_STATUS_TYPE_TUNNEL_STOP as u64),
        ("rfc2867", "Acct-Status-Type", "Tunnel-Reject", 11, radius::core::rfc2867::ACCT_STATUS_TYPE_TUNNEL_REJECT as u64),
        ("rfc2867", "Acct-Status-Type", "Tunnel-Link-Start", 12, radius::core::rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_START as u64),
        ("rfc2867", "Acct-Status-Type", "Tunnel-Link-Stop", 13, radius::core::rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_STOP as u64),
        ("rfc2867", "Acct-Status-Type", "Tunnel-Link-Reject", 14, radius::core::rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_REJECT as u64),
        ("rfc2868", "Tunnel-Medium-Type", "IP", 1, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_IP as u64),
        ("rfc2868", "Tunnel-Medium-Type", "IPv4", 1, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_4 as u64),
        ("rfc2868", "Tunnel-Medium-Type", "IPv6", 2, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_6 as u64),
        ("rfc2868", "Tunnel-Medium-Type", "NSAP", 3, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_NSAP as u64),
        ("rfc2868", "Tunnel-Medium-Type", "HDLC", 4, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_HDLC as u64),
        ("rfc2868", "Tunnel-Medium-Type", "BBN-1822", 5, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_BBN_1822 as u64),
        ("rfc2868", "Tunnel-Medium-Type", "IEEE-802", 6, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_IEEE_802 as u64),
        ("rfc2868", "Tunnel-Medium-Type", "E.163", 7, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_E_163 as u64),
        ("rfc2868", "Tunnel-Medium-Type", "E.164", 8, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_E_164 as u64),
        ("rfc2868", "Tunnel-Medium-Type", "F.69", 9, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_F_69 as u64),
        ("rfc2868", "Tunnel-Medium-Type", "X.121", 10, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_X_121 as u64),
        ("rfc2868", "Tunnel-Medium-Type", "IPX", 11, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_IPX as u64),
        ("rfc2868", "Tunnel-Medium-Type", "Appletalk", 12, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_APPLETALK as u64),
        ("rfc2868", "Tunnel-Medium-Type", "DecNet-IV", 13, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_DEC_NET_IV as u64),
        ("rfc2868", "Tunnel-Medium-Type", "Banyan-Vines", 14, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_BANYAN_VINES as u64),
        ("rfc2868", "Tunnel-Medium-Type", "E.164-NSAP", 15, radius::core::rfc2868::TUNNEL_MEDIUM_TYPE_E_164_NSAP as u64),
        ("rfc2868", "Tunnel-Type", "PPTP", 1, radius::core::rfc2868::TUNNEL_TYPE_PPTP as u64),
        ("rfc2868", "Tunnel-Type", "L2F", 2, radius::core::rfc2868::TUNNEL_TYPE_L2F as u64),
        ("rfc2868", "Tunnel-Type", "L2TP", 3, radius::core::rfc2868::TUNNEL_TYPE_L2TP as u64),
        ("rfc2868", "Tunnel-Type", "ATMP", 4, radius::core::rfc2868::TUNNEL_TYPE_ATMP as u64),
        ("rfc2868", "Tunnel-Type", "VTP", 5, radius::core::rfc2868::TUNNEL_TYPE_VTP as u64),
        ("rfc2868", "Tunnel-Type", "AH", 6, radius::core::rfc2868::TUNNEL_TYPE_AH as u64),
        ("rfc2868", "Tunnel-Type", "IP", 7, radius::core::rfc2868::TUNNEL_TYPE_IP as u64),
        ("rfc2868", "Tunnel-Type", "MIN-IP", 8, radius::core::rfc2868::TUNNEL_TYPE_MIN_IP as u64),
        ("rfc2868", "Tunnel-Type", "ESP", 9, radius::core::rfc2868::TUNNEL_TYPE_ESP as u64),
        ("rfc2868", "Tunnel-Type", "GRE", 10, radius::core::rfc2868::TUNNEL_TYPE_GRE as u64),
        ("rfc2868", "Tunnel-Type", "DVS", 11, radius::core::rfc2868::TUNNEL_TYPE_DVS as u64),
        ("rfc2868", "Tunnel-Type", "IP-in-IP", 12, radius::core::rfc2868::TUNNEL_TYPE_IP_IN_IP as u64),
        ("rfc2869", "ARAP-Zone-Access", "Default-Zone", 1, radius::core::rfc2869::ARAP_ZONE_ACCESS_DEFAULT_ZONE as u64),
        ("rfc2869", "ARAP-Zone-Access", "Zone-Filter-Inclusive", 2, radius::core::rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_INCLUSIVE as u64),
        ("rfc2869", "ARAP-Zone-Access", "Zone-Filter-Exclusive", 4, radius::core::rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_EXCLUSIVE as u64),
        ("rfc2869", "Prompt", "No-Echo", 0, radius::core::rfc2869::PROMPT_NO_ECHO as u64),
        ("rfc2869", "Prompt", "Echo", 1, radius::core::rfc2869::PROMPT_ECHO as u64),
        ("rfc3576", "Error-Cause", "Residual-Context-Removed", 201, radius::core::rfc3576::ERROR_CAUSE_RESIDUAL_CONTEXT_REMOVED as u64),
        ("rfc3576", "Error-Cause", "Invalid-EAP-Packet", 202, radius::core::rfc3576::ERROR_CAUSE_INVALID_EAP_PACKET as u64),
        ("rfc3576", "Error-Cause", "Unsupported-Attribute", 401, radius::core::rfc3576::ERROR_CAUSE_UNSUPPORTED_ATTRIBUTE as u64),
        ("rfc3576", "Error-Cause", "Missing-Attribute", 402, radius::core::rfc3576::ERROR_CAUSE_MISSING_ATTRIBUTE as u64),
        ("rfc3576", "Error-Cause", "NAS-Identification-Mismatch", 403, radius::core::rfc3576::ERROR_CAUSE_NAS_IDENTIFICATION_MISMATCH as u64),
        ("rfc3576", "Error-Cause", "Invalid-Request", 404, radius::core::rfc3576::ERROR_CAUSE_INVALID_REQUEST as u64),
        ("rfc3576", "Error-Cause", "Unsupported-Service", 405, radius::core::rfc3576::ERROR_CAUSE_UNSUPPORTED_SERVICE as u64),
        ("rfc3576", "Error-Cause", "Unsupported-Extension", 406, radius::core::rfc3576::ERROR_CAUSE_UNSUPPORTED_EXTENSION as u64),
        ("rfc3576", "Error-Cause", "Administratively-Prohibited", 501, radius::core::rfc3576::ERROR_CAUSE_ADMINISTRATIVELY_PROHIBITED as u64),
        ("rfc3576", "Error-Cause", "Proxy-Request-Not-Routable", 502, radius::core::rfc3576::ERROR_CAUSE_PROXY_REQUEST_NOT_ROUTABLE as u64),
        ("rfc3576", "Error-Cause", "Session-Context-Not-Found", 503, radius::core::rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_FOUND as u64),
        ("rfc3576", "Error-Cause", "Session-Context-Not-Removable", 504, radius::core::rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_REMOVABLE as u64),
        ("rfc3576", "Error-Cause", "Proxy-Processing-Error", 505, radius::core::rfc3576::ERROR_CAUSE_PROXY_PROCESSING_ERROR as u64),
        ("rfc3576", "Error-Cause", "Resources-Unavailable", 506, radius::core::rfc3576::ERROR_CAUSE_RESOURCES_UNAVAILABLE as u64),
        ("rfc3576", "Error-Cause", "Request-Initiated", 507, radius::core::rfc3576::ERROR_CAUSE_REQUEST_INITIATED as u64),
        ("rfc3576", "Service-Type", "Authorize-Only", 17, radius::core::rfc3576::SERVICE_TYPE_AUTHORIZE_ONLY as u64),
        ("rfc3580", "Acct-Terminate-Cause", "Supplicant-Restart", 19, radius::core::rfc3580::ACCT_TERMINATE_CAUSE_SUPPLICANT_RESTART as u64),
        ("rfc3580", "Acct-Terminate-Cause", "Reauthentication-Failure", 20, radius::core::rfc3580::ACCT_TERMINATE_CAUSE_REAUTHENTICATION_FAILURE as u64),
        ("rfc3580", "Acct-Terminate-Cause", "Port-Reinit", 21, radius::core::rfc3580::ACCT_TERMINATE_CAUSE_PORT_REINIT as u64),
        ("rfc3580", "Acct-Terminate-Cause", "Port-Disabled", 22, radius::core::rfc3580::ACCT_TERMINATE_CAUSE_PORT_DISABLED as u64),
        ("rfc3580", "NAS-Port-Type", "Token-Ring", 20, radius::core::rfc3580::NAS_PORT_TYPE_TOKEN_RING as u64),
        ("rfc3580", "NAS-Port-Type", "FDDI", 21, radius::core::rfc3580::NAS_PORT_TYPE_FDDI as u64),
        ("rfc3580", "Tunnel-Type", "VLAN", 13, radius::core::rfc3580::TUNNEL_TYPE_VLAN as u64),
        ("rfc4603", "NAS-Port-Type", "PPPoA", 30, radius::core::rfc4603::NAS_PORT_TYPE_PP_PO_A as u64),
        ("rfc4603", "NAS-Port-Type", "PPPoEoA", 31, radius::core::rfc4603::NAS_PORT_TYPE_PP_PO_EO_A as u64),
        ("rfc4603", "NAS-Port-Type", "PPPoEoE", 32, radius::core::rfc4603::NAS_PORT_TYPE_PP_PO_EO_E as u64),
        ("rfc4603", "NAS-Port-Type", "PPPoEoVLAN", 33, radius::core::rfc4603::NAS_PORT_TYPE_PP_PO_EO_VLAN as u64),
        ("rfc4603", "NAS-Port-Type", "PPPoEoQinQ", 34, radius::core::rfc4603::NAS_PORT_TYPE_PP_PO_EO_QIN_Q as u64),
        ("rfc4675", "Ingress-Filters", "Enabled", 1, radius::core::rfc4675::INGRESS_FILTERS_ENABLED as u64),
        ("rfc4675", "Ingress-Filters", "Disabled", 2, radius::core::rfc4675::INGRESS_FILTERS_DISABLED as u64),
        ("rfc5176", "Error-Cause", "Invalid-Attribute-Value", 407, radius::core::rfc5176::ERROR_CAUSE_INVALID_ATTRIBUTE_VALUE as u64),
        ("rfc5176", "Error-Cause", "Multiple-Session-Selection-Unsupported", 508, radius::core::rfc5176::ERROR_CAUSE_MULTIPLE_SESSION_SELECTION_UNSUPPORTED as u64),
        ("rfc5607", "Framed-Management", "SNMP", 1, radius::core::rfc5607::FRAMED_MANAGEMENT_SNMP as u64),
        ("rfc5607", "Framed-Management", "Web-Based", 2, radius::core::rfc5607::FRAMED_MANAGEMENT_WEB_BASED as u64),
        ("rfc5607", "Framed-Management", "Netconf", 3, radius::core::rfc5607::FRAMED_MANAGEMENT_NETCONF as u64),
        ("rfc5607", "Framed-Management", "FTP", 4, radius::core::rfc5607::FRAMED_MANAGEMENT_FTP as u64),
        ("rfc5607", "Framed-Management", "TFTP", 5, radius::core::rfc5607::FRAMED_MANAGEMENT_TFTP as u64),
        ("rfc5607", "Framed-Management", "SFTP", 6, radius::core::rfc5607::FRAMED_MANAGEMENT_SFTP as u64),
        ("rfc5607", "Framed-Management", "RCP", 7, radius::core::rfc5607::FRAMED_MANAGEMENT_RCP as u64),
        ("rfc5607", "Framed-Management", "SCP", 8, radius::core::rfc5607::FRAMED_MANAGEMENT_SCP as u64),
        ("rfc5607", "Management-Transport-Protection", "No-Protection", 1, radius::core::rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_NO_PROTECTION as u64),
        ("rfc5607", "Management-Transport-Protection", "Integrity-Protection", 2, radius::core::rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_PROTECTION as u64),
        ("rfc5607", "Management-Transport-Protection", "Integrity-Confidentiality-Protection", 3, radius::core::rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_CONFIDENTIALITY_PROTECTION as u64),
        ("rfc5607", "Service-Type", "Framed-Management", 18, radius::core::rfc5607::SERVICE_TYPE_FRAMED_MANAGEMENT as u64),
        ("rfc6677", "EAP-Lower-Layer", "Wired-IEEE-802.1X", 1, radius::core::rfc6677::EAP_LOWER_LAYER_WIRED_IEEE_802_1X as u64),
        ("rfc6677", "EAP-Lower-Layer", "IEEE-802.1X-No-Preauth", 2, radius::core::rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_NO_PREAUTH as u64),
        ("rfc6677", "EAP-Lower-Layer", "IEEE-802.1X-Preauth", 3, radius::core::rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_PREAUTH as u64),
        ("rfc6677", "EAP-Lower-Layer", "IEEE-802.16e", 4, radius::core::rfc6677::EAP_LOWER_LAYER_IEEE_802_1_6E as u64),
        ("rfc6677", "EAP-Lower-Layer", "IKEv2", 5, radius::core::rfc6677::EAP_LOWER_LAYER_IK_EV_2 as u64),
        ("rfc6677", "EAP-Lower-Layer", "PPP", 6, radius::core::rfc6677::EAP_LOWER_LAYER_PPP as u64),
        ("rfc6677", "EAP-Lower-Layer", "PANA-No-Preauth", 7, radius::core::rfc6677::EAP_LOWER_LAYER_PANA_NO_PREAUTH as u64),
        ("rfc6677", "EAP-Lower-Layer", "GSS-API", 8, radius::core::rfc6677::EAP_LOWER_LAYER_GSS_API as u64),
        ("rfc6677", "EAP-Lower-Layer", "PANA-Preauth", 9, radius::core::rfc6677::EAP_LOWER_LAYER_PANA_PREAUTH as u64),
    ]
}
