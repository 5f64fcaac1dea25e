// Code generated by tools/genshim; DO NOT EDIT.

//go:build go1.24

package vcloudflare

import real "github.com/cloudflare/cloudflare-go"

const ACTIVE = real.ACTIVE

type API = real.API
type APIResponse = real.APIResponse
type APIShield = real.APIShield
type APIShieldBasicOperation = real.APIShieldBasicOperation
type APIShieldCreateSchemaEvent = real.APIShieldCreateSchemaEvent
type APIShieldCreateSchemaEventWithLocation = real.APIShieldCreateSchemaEventWithLocation
type APIShieldCreateSchemaEventWithLocations = real.APIShieldCreateSchemaEventWithLocations
type APIShieldCreateSchemaEvents = real.APIShieldCreateSchemaEvents
type APIShieldCreateSchemaResponse = real.APIShieldCreateSchemaResponse
type APIShieldCreateSchemaResult = real.APIShieldCreateSchemaResult
type APIShieldDeleteOperationResponse = real.APIShieldDeleteOperationResponse
type APIShieldDeleteSchemaResponse = real.APIShieldDeleteSchemaResponse
type APIShieldDiscoveryOperation = real.APIShieldDiscoveryOperation
type APIShieldDiscoveryOrigin = real.APIShieldDiscoveryOrigin

const APIShieldDiscoveryOriginML = real.APIShieldDiscoveryOriginML
const APIShieldDiscoveryOriginSessionIdentifier = real.APIShieldDiscoveryOriginSessionIdentifier

type APIShieldDiscoveryState = real.APIShieldDiscoveryState

const APIShieldDiscoveryStateIgnored = real.APIShieldDiscoveryStateIgnored
const APIShieldDiscoveryStateReview = real.APIShieldDiscoveryStateReview
const APIShieldDiscoveryStateSaved = real.APIShieldDiscoveryStateSaved

type APIShieldGetOperationResponse = real.APIShieldGetOperationResponse
type APIShieldGetOperationsResponse = real.APIShieldGetOperationsResponse
type APIShieldGetSchemaResponse = real.APIShieldGetSchemaResponse
type APIShieldListDiscoveryOperationsResponse = real.APIShieldListDiscoveryOperationsResponse
type APIShieldListOperationsFilters = real.APIShieldListOperationsFilters
type APIShieldListSchemasResponse = real.APIShieldListSchemasResponse
type APIShieldOperation = real.APIShieldOperation
type APIShieldOperationSchemaValidationSettings = real.APIShieldOperationSchemaValidationSettings
type APIShieldOperationSchemaValidationSettingsResponse = real.APIShieldOperationSchemaValidationSettingsResponse
type APIShieldPatchDiscoveryOperationResponse = real.APIShieldPatchDiscoveryOperationResponse
type APIShieldPatchDiscoveryOperationsResponse = real.APIShieldPatchDiscoveryOperationsResponse
type APIShieldPatchSchemaResponse = real.APIShieldPatchSchemaResponse
type APIShieldResponse = real.APIShieldResponse
type APIShieldSchema = real.APIShieldSchema
type APIShieldSchemaValidationSettings = real.APIShieldSchemaValidationSettings
type APIShieldSchemaValidationSettingsResponse = real.APIShieldSchemaValidationSettingsResponse
type APIToken = real.APIToken
type APITokenCondition = real.APITokenCondition
type APITokenListResponse = real.APITokenListResponse
type APITokenPermissionGroups = real.APITokenPermissionGroups
type APITokenPermissionGroupsResponse = real.APITokenPermissionGroupsResponse
type APITokenPolicies = real.APITokenPolicies
type APITokenRequestIPCondition = real.APITokenRequestIPCondition
type APITokenResponse = real.APITokenResponse
type APITokenRollResponse = real.APITokenRollResponse
type APITokenVerifyBody = real.APITokenVerifyBody
type APITokenVerifyResponse = real.APITokenVerifyResponse
type ASNInfo = real.ASNInfo
type AccessAppLauncherCustomization = real.AccessAppLauncherCustomization
type AccessApplication = real.AccessApplication
type AccessApplicationCorsHeaders = real.AccessApplicationCorsHeaders
type AccessApplicationDetailResponse = real.AccessApplicationDetailResponse
type AccessApplicationGatewayRule = real.AccessApplicationGatewayRule
type AccessApplicationHybridAndImplicitOptions = real.AccessApplicationHybridAndImplicitOptions
type AccessApplicationListResponse = real.AccessApplicationListResponse
type AccessApplicationSCIMConfig = real.AccessApplicationSCIMConfig
type AccessApplicationScimAuthentication = real.AccessApplicationScimAuthentication
type AccessApplicationScimAuthenticationHttpBasic = real.AccessApplicationScimAuthenticationHttpBasic
type AccessApplicationScimAuthenticationJson = real.AccessApplicationScimAuthenticationJson
type AccessApplicationScimAuthenticationOauth2 = real.AccessApplicationScimAuthenticationOauth2
type AccessApplicationScimAuthenticationOauthBearerToken = real.AccessApplicationScimAuthenticationOauthBearerToken
type AccessApplicationScimAuthenticationScheme = real.AccessApplicationScimAuthenticationScheme

const AccessApplicationScimAuthenticationSchemeHttpBasic = real.AccessApplicationScimAuthenticationSchemeHttpBasic
const AccessApplicationScimAuthenticationSchemeOauth2 = real.AccessApplicationScimAuthenticationSchemeOauth2
const AccessApplicationScimAuthenticationSchemeOauthBearerToken = real.AccessApplicationScimAuthenticationSchemeOauthBearerToken

type AccessApplicationScimMapping = real.AccessApplicationScimMapping
type AccessApplicationScimMappingOperations = real.AccessApplicationScimMappingOperations
type AccessApplicationType = real.AccessApplicationType
type AccessApprovalGroup = real.AccessApprovalGroup
type AccessAuditLogFilterOptions = real.AccessAuditLogFilterOptions
type AccessAuditLogListResponse = real.AccessAuditLogListResponse
type AccessAuditLogRecord = real.AccessAuditLogRecord
type AccessAuthContext = real.AccessAuthContext
type AccessAuthContextsListResponse = real.AccessAuthContextsListResponse
type AccessBookmark = real.AccessBookmark
type AccessBookmarkDetailResponse = real.AccessBookmarkDetailResponse
type AccessBookmarkListResponse = real.AccessBookmarkListResponse
type AccessCACertificate = real.AccessCACertificate
type AccessCACertificateListResponse = real.AccessCACertificateListResponse
type AccessCACertificateResponse = real.AccessCACertificateResponse
type AccessConfig = real.AccessConfig
type AccessCustomPage = real.AccessCustomPage
type AccessCustomPageListResponse = real.AccessCustomPageListResponse
type AccessCustomPageResponse = real.AccessCustomPageResponse
type AccessCustomPageType = real.AccessCustomPageType
type AccessFooterLink = real.AccessFooterLink
type AccessGroup = real.AccessGroup
type AccessGroupAccessGroup = real.AccessGroupAccessGroup
type AccessGroupAnyValidServiceToken = real.AccessGroupAnyValidServiceToken
type AccessGroupAuthMethod = real.AccessGroupAuthMethod
type AccessGroupAzure = real.AccessGroupAzure
type AccessGroupAzureAuthContext = real.AccessGroupAzureAuthContext
type AccessGroupCertificate = real.AccessGroupCertificate
type AccessGroupCertificateCommonName = real.AccessGroupCertificateCommonName
type AccessGroupDetailResponse = real.AccessGroupDetailResponse
type AccessGroupDevicePosture = real.AccessGroupDevicePosture
type AccessGroupEmail = real.AccessGroupEmail
type AccessGroupEmailDomain = real.AccessGroupEmailDomain
type AccessGroupEmailList = real.AccessGroupEmailList
type AccessGroupEveryone = real.AccessGroupEveryone
type AccessGroupExternalEvaluation = real.AccessGroupExternalEvaluation
type AccessGroupGSuite = real.AccessGroupGSuite
type AccessGroupGeo = real.AccessGroupGeo
type AccessGroupGitHub = real.AccessGroupGitHub
type AccessGroupIP = real.AccessGroupIP
type AccessGroupIPList = real.AccessGroupIPList
type AccessGroupListResponse = real.AccessGroupListResponse
type AccessGroupLoginMethod = real.AccessGroupLoginMethod
type AccessGroupOkta = real.AccessGroupOkta
type AccessGroupSAML = real.AccessGroupSAML
type AccessGroupServiceToken = real.AccessGroupServiceToken
type AccessIdentityProvider = real.AccessIdentityProvider
type AccessIdentityProviderConfiguration = real.AccessIdentityProviderConfiguration
type AccessIdentityProviderResponse = real.AccessIdentityProviderResponse
type AccessIdentityProviderScimConfiguration = real.AccessIdentityProviderScimConfiguration
type AccessIdentityProvidersListResponse = real.AccessIdentityProvidersListResponse
type AccessKeysConfig = real.AccessKeysConfig
type AccessKeysConfigUpdateRequest = real.AccessKeysConfigUpdateRequest
type AccessLandingPageDesign = real.AccessLandingPageDesign
type AccessMutualTLSCertificate = real.AccessMutualTLSCertificate
type AccessMutualTLSCertificateDetailResponse = real.AccessMutualTLSCertificateDetailResponse
type AccessMutualTLSCertificateListResponse = real.AccessMutualTLSCertificateListResponse
type AccessMutualTLSHostnameSettings = real.AccessMutualTLSHostnameSettings
type AccessOrganization = real.AccessOrganization
type AccessOrganizationCustomPages = real.AccessOrganizationCustomPages
type AccessOrganizationDetailResponse = real.AccessOrganizationDetailResponse
type AccessOrganizationListResponse = real.AccessOrganizationListResponse
type AccessOrganizationLoginDesign = real.AccessOrganizationLoginDesign
type AccessPolicy = real.AccessPolicy
type AccessPolicyDetailResponse = real.AccessPolicyDetailResponse
type AccessPolicyListResponse = real.AccessPolicyListResponse
type AccessRule = real.AccessRule
type AccessRuleConfiguration = real.AccessRuleConfiguration
type AccessRuleListResponse = real.AccessRuleListResponse
type AccessRuleResponse = real.AccessRuleResponse
type AccessRuleScope = real.AccessRuleScope
type AccessServiceToken = real.AccessServiceToken
type AccessServiceTokenCreateResponse = real.AccessServiceTokenCreateResponse
type AccessServiceTokenRefreshResponse = real.AccessServiceTokenRefreshResponse
type AccessServiceTokenRotateResponse = real.AccessServiceTokenRotateResponse
type AccessServiceTokenUpdateResponse = real.AccessServiceTokenUpdateResponse
type AccessServiceTokensCreationDetailResponse = real.AccessServiceTokensCreationDetailResponse
type AccessServiceTokensDetailResponse = real.AccessServiceTokensDetailResponse
type AccessServiceTokensListResponse = real.AccessServiceTokensListResponse
type AccessServiceTokensRefreshDetailResponse = real.AccessServiceTokensRefreshDetailResponse
type AccessServiceTokensRotateSecretDetailResponse = real.AccessServiceTokensRotateSecretDetailResponse
type AccessServiceTokensUpdateDetailResponse = real.AccessServiceTokensUpdateDetailResponse
type AccessTag = real.AccessTag
type AccessTagListResponse = real.AccessTagListResponse
type AccessTagResponse = real.AccessTagResponse
type AccessUpdateAccessUserSeatResult = real.AccessUpdateAccessUserSeatResult
type AccessUser = real.AccessUser
type AccessUserActiveSessionMetadata = real.AccessUserActiveSessionMetadata
type AccessUserActiveSessionMetadataApp = real.AccessUserActiveSessionMetadataApp
type AccessUserActiveSessionResult = real.AccessUserActiveSessionResult
type AccessUserActiveSessionsResponse = real.AccessUserActiveSessionsResponse
type AccessUserDevicePosture = real.AccessUserDevicePosture
type AccessUserDevicePostureCheck = real.AccessUserDevicePostureCheck
type AccessUserDeviceSession = real.AccessUserDeviceSession
type AccessUserFailedLoginMetadata = real.AccessUserFailedLoginMetadata
type AccessUserFailedLoginResult = real.AccessUserFailedLoginResult
type AccessUserFailedLoginsResponse = real.AccessUserFailedLoginsResponse
type AccessUserIDP = real.AccessUserIDP
type AccessUserIdentityGeo = real.AccessUserIdentityGeo
type AccessUserLastSeenIdentityResponse = real.AccessUserLastSeenIdentityResponse
type AccessUserLastSeenIdentityResult = real.AccessUserLastSeenIdentityResult
type AccessUserLastSeenIdentitySessionResponse = real.AccessUserLastSeenIdentitySessionResponse
type AccessUserListResponse = real.AccessUserListResponse
type AccessUserMTLSAuth = real.AccessUserMTLSAuth
type AccessUserParams = real.AccessUserParams
type Account = real.Account
type AccountDetailResponse = real.AccountDetailResponse

var AccountIdentifier = real.AccountIdentifier

type AccountListResponse = real.AccountListResponse
type AccountMember = real.AccountMember
type AccountMemberDetailResponse = real.AccountMemberDetailResponse
type AccountMemberInvitation = real.AccountMemberInvitation
type AccountMemberUserDetails = real.AccountMemberUserDetails
type AccountMembersListResponse = real.AccountMembersListResponse
type AccountResponse = real.AccountResponse
type AccountRole = real.AccountRole
type AccountRoleDetailResponse = real.AccountRoleDetailResponse
type AccountRolePermission = real.AccountRolePermission
type AccountRolesListResponse = real.AccountRolesListResponse

const AccountRouteLevel = real.AccountRouteLevel
const AccountRouteRoot = real.AccountRouteRoot

type AccountSettings = real.AccountSettings

const AccountType = real.AccountType

type AccountsListParams = real.AccountsListParams
type AdaptiveRouting = real.AdaptiveRouting
type AdditionalInformation = real.AdditionalInformation
type AddressMap = real.AddressMap
type AddressMapIP = real.AddressMapIP
type AddressMapMembership = real.AddressMapMembership

const AddressMapMembershipAccount = real.AddressMapMembershipAccount

type AddressMapMembershipContainer = real.AddressMapMembershipContainer
type AddressMapMembershipKind = real.AddressMapMembershipKind

const AddressMapMembershipZone = real.AddressMapMembershipZone

type AdvertisementStatus = real.AdvertisementStatus
type AdvertisementStatusUpdateRequest = real.AdvertisementStatusUpdateRequest
type AlertHistoryFilter = real.AlertHistoryFilter

const Allow = real.Allow

var AnyPtr = real.AnyPtr

const AppLauncher = real.AppLauncher

type Application = real.Application
type ArgoDetailsResponse = real.ArgoDetailsResponse
type ArgoFeatureSetting = real.ArgoFeatureSetting
type ArgoTunnel = real.ArgoTunnel
type ArgoTunnelConnection = real.ArgoTunnelConnection
type ArgoTunnelDetailResponse = real.ArgoTunnelDetailResponse
type ArgoTunnelsDetailResponse = real.ArgoTunnelsDetailResponse
type AttachWorkersDomainParams = real.AttachWorkersDomainParams
type AuditLog = real.AuditLog
type AuditLogAction = real.AuditLogAction
type AuditLogActor = real.AuditLogActor
type AuditLogFilter = real.AuditLogFilter
type AuditLogOwner = real.AuditLogOwner
type AuditLogResource = real.AuditLogResource
type AuditLogResponse = real.AuditLogResponse

const AuditSSH = real.AuditSSH

type AuditSSHRuleSettings = real.AuditSSHRuleSettings
type AuditSSHSettings = real.AuditSSHSettings
type AuditSSHSettingsResponse = real.AuditSSHSettingsResponse
type AuthIdCharacteristics = real.AuthIdCharacteristics

const AuthKeyEmail = real.AuthKeyEmail
const AuthToken = real.AuthToken
const AuthUserService = real.AuthUserService

type AuthenticatedOriginPulls = real.AuthenticatedOriginPulls
type AuthenticatedOriginPullsResponse = real.AuthenticatedOriginPullsResponse
type AuthenticationError = real.AuthenticationError
type AuthorizationError = real.AuthorizationError
type AvailableZonePlansResponse = real.AvailableZonePlansResponse
type AvailableZoneRatePlansResponse = real.AvailableZoneRatePlansResponse

const BLOCKED = real.BLOCKED

var BaseURL = real.BaseURL

type Behavior = real.Behavior
type BehaviorResponse = real.BehaviorResponse
type Behaviors = real.Behaviors
type BelongsToRef = real.BelongsToRef

const Biso = real.Biso
const Block = real.Block
const Bookmark = real.Bookmark

var Bool = real.Bool
var BoolMap = real.BoolMap
var BoolPtr = real.BoolPtr
var BoolPtrMap = real.BoolPtrMap
var BoolPtrSlice = real.BoolPtrSlice
var BoolSlice = real.BoolSlice

type BotManagement = real.BotManagement
type BotManagementResponse = real.BotManagementResponse
type BrowserIsolation = real.BrowserIsolation

const Bundled = real.Bundled

var Byte = real.Byte
var BytePtr = real.BytePtr

type CacheReserve = real.CacheReserve
type CacheReserveDetailsResponse = real.CacheReserveDetailsResponse
type Categories = real.Categories
type Categorizations = real.Categorizations
type CertificateLocations = real.CertificateLocations
type CertificatePack = real.CertificatePack
type CertificatePackCertificate = real.CertificatePackCertificate
type CertificatePackGeoRestrictions = real.CertificatePackGeoRestrictions
type CertificatePackRequest = real.CertificatePackRequest
type CertificatePacksDetailResponse = real.CertificatePacksDetailResponse
type CertificatePacksResponse = real.CertificatePacksResponse
type CloudConnectorRule = real.CloudConnectorRule
type CloudConnectorRuleParameters = real.CloudConnectorRuleParameters
type CloudConnectorRulesResponse = real.CloudConnectorRulesResponse

var Complex128 = real.Complex128
var Complex128Ptr = real.Complex128Ptr
var Complex64 = real.Complex64
var Complex64Ptr = real.Complex64Ptr

type Config = real.Config
type Connection = real.Connection

const Contains = real.Contains

type ContentCategories = real.ContentCategories
type CreateAPIShieldOperationsParams = real.CreateAPIShieldOperationsParams
type CreateAPIShieldSchemaParams = real.CreateAPIShieldSchemaParams
type CreateAccessApplicationParams = real.CreateAccessApplicationParams
type CreateAccessCACertificateParams = real.CreateAccessCACertificateParams
type CreateAccessCustomPageParams = real.CreateAccessCustomPageParams
type CreateAccessGroupParams = real.CreateAccessGroupParams
type CreateAccessIdentityProviderParams = real.CreateAccessIdentityProviderParams
type CreateAccessMutualTLSCertificateParams = real.CreateAccessMutualTLSCertificateParams
type CreateAccessOrganizationParams = real.CreateAccessOrganizationParams
type CreateAccessPolicyParams = real.CreateAccessPolicyParams
type CreateAccessServiceTokenParams = real.CreateAccessServiceTokenParams
type CreateAccessTagParams = real.CreateAccessTagParams
type CreateAccountMemberParams = real.CreateAccountMemberParams
type CreateAddressMapParams = real.CreateAddressMapParams
type CreateCustomNameserversParams = real.CreateCustomNameserversParams
type CreateD1DatabaseParams = real.CreateD1DatabaseParams
type CreateDLPDatasetParams = real.CreateDLPDatasetParams
type CreateDLPDatasetResponse = real.CreateDLPDatasetResponse
type CreateDLPDatasetResult = real.CreateDLPDatasetResult
type CreateDLPDatasetUploadParams = real.CreateDLPDatasetUploadParams
type CreateDLPDatasetUploadResponse = real.CreateDLPDatasetUploadResponse
type CreateDLPDatasetUploadResult = real.CreateDLPDatasetUploadResult
type CreateDLPProfilesParams = real.CreateDLPProfilesParams
type CreateDNSFirewallClusterParams = real.CreateDNSFirewallClusterParams
type CreateDNSRecordParams = real.CreateDNSRecordParams
type CreateDataLocalizationRegionalHostnameParams = real.CreateDataLocalizationRegionalHostnameParams
type CreateDeviceDexTestParams = real.CreateDeviceDexTestParams
type CreateDeviceManagedNetworkParams = real.CreateDeviceManagedNetworkParams
type CreateDeviceSettingsPolicyParams = real.CreateDeviceSettingsPolicyParams
type CreateEmailRoutingAddressParameters = real.CreateEmailRoutingAddressParameters
type CreateEmailRoutingAddressResponse = real.CreateEmailRoutingAddressResponse
type CreateEmailRoutingRuleParameters = real.CreateEmailRoutingRuleParameters
type CreateEmailRoutingRuleResponse = real.CreateEmailRoutingRuleResponse
type CreateHyperdriveConfigParams = real.CreateHyperdriveConfigParams
type CreateIPAddressToAddressMapParams = real.CreateIPAddressToAddressMapParams
type CreateImageDirectUploadURLParams = real.CreateImageDirectUploadURLParams
type CreateImagesVariantParams = real.CreateImagesVariantParams
type CreateLoadBalancerMonitorParams = real.CreateLoadBalancerMonitorParams
type CreateLoadBalancerParams = real.CreateLoadBalancerParams
type CreateLoadBalancerPoolParams = real.CreateLoadBalancerPoolParams
type CreateLogpushJobParams = real.CreateLogpushJobParams
type CreateMTLSCertificateParams = real.CreateMTLSCertificateParams
type CreateMagicFirewallRulesetRequest = real.CreateMagicFirewallRulesetRequest
type CreateMagicFirewallRulesetResponse = real.CreateMagicFirewallRulesetResponse
type CreateMagicTransitGRETunnelsRequest = real.CreateMagicTransitGRETunnelsRequest
type CreateMagicTransitIPsecTunnelsRequest = real.CreateMagicTransitIPsecTunnelsRequest
type CreateMagicTransitStaticRoutesRequest = real.CreateMagicTransitStaticRoutesRequest
type CreateMembershipToAddressMapParams = real.CreateMembershipToAddressMapParams
type CreateObservatoryPageTestParams = real.CreateObservatoryPageTestParams
type CreateObservatoryPageTestSettings = real.CreateObservatoryPageTestSettings
type CreateObservatoryScheduledPageTestParams = real.CreateObservatoryScheduledPageTestParams
type CreateObservatoryScheduledPageTestResponse = real.CreateObservatoryScheduledPageTestResponse
type CreateOriginCertificateParams = real.CreateOriginCertificateParams
type CreatePageShieldPolicyParams = real.CreatePageShieldPolicyParams
type CreatePagesDeploymentParams = real.CreatePagesDeploymentParams
type CreatePagesProjectParams = real.CreatePagesProjectParams
type CreateQueueConsumerParams = real.CreateQueueConsumerParams
type CreateQueueParams = real.CreateQueueParams
type CreateR2BucketParameters = real.CreateR2BucketParameters
type CreateRulesetParams = real.CreateRulesetParams
type CreateRulesetResponse = real.CreateRulesetResponse
type CreateTeamsListParams = real.CreateTeamsListParams
type CreateTurnstileWidgetParams = real.CreateTurnstileWidgetParams
type CreateWaitingRoomRuleParams = real.CreateWaitingRoomRuleParams
type CreateWebAnalyticsRule = real.CreateWebAnalyticsRule
type CreateWebAnalyticsRuleParams = real.CreateWebAnalyticsRuleParams
type CreateWebAnalyticsSiteParams = real.CreateWebAnalyticsSiteParams
type CreateWorkerParams = real.CreateWorkerParams
type CreateWorkerRouteParams = real.CreateWorkerRouteParams
type CreateWorkersAccountSettingsParameters = real.CreateWorkersAccountSettingsParameters
type CreateWorkersAccountSettingsResponse = real.CreateWorkersAccountSettingsResponse
type CreateWorkersForPlatformsDispatchNamespaceParams = real.CreateWorkersForPlatformsDispatchNamespaceParams
type CreateWorkersKVNamespaceParams = real.CreateWorkersKVNamespaceParams
type CreateZoneHoldParams = real.CreateZoneHoldParams
type CustomHostname = real.CustomHostname
type CustomHostnameFallbackOrigin = real.CustomHostnameFallbackOrigin
type CustomHostnameFallbackOriginResponse = real.CustomHostnameFallbackOriginResponse
type CustomHostnameListResponse = real.CustomHostnameListResponse
type CustomHostnameOwnershipVerification = real.CustomHostnameOwnershipVerification
type CustomHostnameOwnershipVerificationHTTP = real.CustomHostnameOwnershipVerificationHTTP
type CustomHostnameResponse = real.CustomHostnameResponse
type CustomHostnameSSL = real.CustomHostnameSSL
type CustomHostnameSSLCertificates = real.CustomHostnameSSLCertificates
type CustomHostnameSSLSettings = real.CustomHostnameSSLSettings
type CustomHostnameStatus = real.CustomHostnameStatus
type CustomMetadata = real.CustomMetadata
type CustomNameserver = real.CustomNameserver
type CustomNameserverRecord = real.CustomNameserverRecord
type CustomNameserverResult = real.CustomNameserverResult
type CustomNameserverZoneMetadata = real.CustomNameserverZoneMetadata
type CustomPage = real.CustomPage
type CustomPageDetailResponse = real.CustomPageDetailResponse
type CustomPageOptions = real.CustomPageOptions
type CustomPageParameters = real.CustomPageParameters
type CustomPageResponse = real.CustomPageResponse
type D1Binding = real.D1Binding
type D1BindingMap = real.D1BindingMap
type D1Database = real.D1Database
type D1DatabaseMetadata = real.D1DatabaseMetadata
type D1DatabaseResponse = real.D1DatabaseResponse
type D1Result = real.D1Result
type DCVDelegation = real.DCVDelegation
type DCVDelegationResponse = real.DCVDelegationResponse

const DEFAULT_VALIDITY_PERIOD_DAYS = real.DEFAULT_VALIDITY_PERIOD_DAYS
const DELETED = real.DELETED

type DLPContextAwareness = real.DLPContextAwareness
type DLPContextAwarenessSkip = real.DLPContextAwarenessSkip
type DLPDataset = real.DLPDataset
type DLPDatasetGetResponse = real.DLPDatasetGetResponse
type DLPDatasetListResponse = real.DLPDatasetListResponse
type DLPDatasetUpload = real.DLPDatasetUpload
type DLPEntry = real.DLPEntry
type DLPPattern = real.DLPPattern
type DLPPayloadLogSettings = real.DLPPayloadLogSettings
type DLPPayloadLogSettingsResponse = real.DLPPayloadLogSettingsResponse
type DLPProfile = real.DLPProfile
type DLPProfileListResponse = real.DLPProfileListResponse
type DLPProfileResponse = real.DLPProfileResponse
type DLPProfilesCreateRequest = real.DLPProfilesCreateRequest
type DNSFirewallAnalytics = real.DNSFirewallAnalytics
type DNSFirewallAnalyticsMetrics = real.DNSFirewallAnalyticsMetrics
type DNSFirewallCluster = real.DNSFirewallCluster
type DNSFirewallUserAnalyticsOptions = real.DNSFirewallUserAnalyticsOptions
type DNSListResponse = real.DNSListResponse
type DNSRecord = real.DNSRecord
type DNSRecordResponse = real.DNSRecordResponse

var Debug = real.Debug
var DefaultLeveledLogger = real.DefaultLeveledLogger

type DeleteAPIShieldOperationParams = real.DeleteAPIShieldOperationParams
type DeleteAPIShieldSchemaParams = real.DeleteAPIShieldSchemaParams
type DeleteAccessPolicyParams = real.DeleteAccessPolicyParams
type DeleteCustomNameserversParams = real.DeleteCustomNameserversParams
type DeleteDeviceSettingsPolicyResponse = real.DeleteDeviceSettingsPolicyResponse
type DeleteHostnameTLSSettingCiphersParams = real.DeleteHostnameTLSSettingCiphersParams
type DeleteHostnameTLSSettingParams = real.DeleteHostnameTLSSettingParams
type DeleteIPAddressFromAddressMapParams = real.DeleteIPAddressFromAddressMapParams
type DeleteMagicTransitGRETunnelResponse = real.DeleteMagicTransitGRETunnelResponse
type DeleteMagicTransitIPsecTunnelResponse = real.DeleteMagicTransitIPsecTunnelResponse
type DeleteMagicTransitStaticRouteResponse = real.DeleteMagicTransitStaticRouteResponse
type DeleteMembershipFromAddressMapParams = real.DeleteMembershipFromAddressMapParams
type DeleteObservatoryPageTestsParams = real.DeleteObservatoryPageTestsParams
type DeleteObservatoryScheduledPageTestParams = real.DeleteObservatoryScheduledPageTestParams
type DeletePagesDeploymentParams = real.DeletePagesDeploymentParams
type DeleteQueueConsumerParams = real.DeleteQueueConsumerParams
type DeleteRulesetRuleParams = real.DeleteRulesetRuleParams
type DeleteWaitingRoomRuleParams = real.DeleteWaitingRoomRuleParams
type DeleteWebAnalyticsRuleParams = real.DeleteWebAnalyticsRuleParams
type DeleteWebAnalyticsSiteParams = real.DeleteWebAnalyticsSiteParams
type DeleteWorkerParams = real.DeleteWorkerParams
type DeleteWorkersKVEntriesParams = real.DeleteWorkersKVEntriesParams
type DeleteWorkersKVEntryParams = real.DeleteWorkersKVEntryParams
type DeleteWorkersSecretParams = real.DeleteWorkersSecretParams
type DeleteZoneHoldParams = real.DeleteZoneHoldParams
type DeviceClientCertificates = real.DeviceClientCertificates
type DeviceDexTest = real.DeviceDexTest
type DeviceDexTestData = real.DeviceDexTestData
type DeviceDexTestListResponse = real.DeviceDexTestListResponse
type DeviceDexTestResponse = real.DeviceDexTestResponse
type DeviceDexTests = real.DeviceDexTests
type DeviceManagedNetwork = real.DeviceManagedNetwork
type DeviceManagedNetworkListResponse = real.DeviceManagedNetworkListResponse
type DeviceManagedNetworkResponse = real.DeviceManagedNetworkResponse
type DevicePostureIntegration = real.DevicePostureIntegration
type DevicePostureIntegrationConfig = real.DevicePostureIntegrationConfig
type DevicePostureIntegrationListResponse = real.DevicePostureIntegrationListResponse
type DevicePostureIntegrationResponse = real.DevicePostureIntegrationResponse
type DevicePostureRule = real.DevicePostureRule
type DevicePostureRuleDetailResponse = real.DevicePostureRuleDetailResponse
type DevicePostureRuleInput = real.DevicePostureRuleInput
type DevicePostureRuleListResponse = real.DevicePostureRuleListResponse
type DevicePostureRuleMatch = real.DevicePostureRuleMatch
type DeviceSettingsPolicy = real.DeviceSettingsPolicy
type DeviceSettingsPolicyResponse = real.DeviceSettingsPolicyResponse
type DiagnosticsTracerouteConfiguration = real.DiagnosticsTracerouteConfiguration
type DiagnosticsTracerouteConfigurationOptions = real.DiagnosticsTracerouteConfigurationOptions
type DiagnosticsTracerouteResponse = real.DiagnosticsTracerouteResponse
type DiagnosticsTracerouteResponseColo = real.DiagnosticsTracerouteResponseColo
type DiagnosticsTracerouteResponseColos = real.DiagnosticsTracerouteResponseColos
type DiagnosticsTracerouteResponseHops = real.DiagnosticsTracerouteResponseHops
type DiagnosticsTracerouteResponseNodes = real.DiagnosticsTracerouteResponseNodes
type DiagnosticsTracerouteResponseResult = real.DiagnosticsTracerouteResponseResult
type DispatchNamespaceBinding = real.DispatchNamespaceBinding

const DispatchNamespaceBindingType = real.DispatchNamespaceBindingType
const DnsFilter = real.DnsFilter
const DnsResolverFilter = real.DnsResolverFilter

type DomainDetails = real.DomainDetails
type DomainDetailsResponse = real.DomainDetailsResponse
type DomainHistory = real.DomainHistory
type Duration = real.Duration

var DurationPtr = real.DurationPtr

const Egress = real.Egress
const EgressFilter = real.EgressFilter

type EgressSettings = real.EgressSettings
type EmailRoutingCatchAllRule = real.EmailRoutingCatchAllRule
type EmailRoutingCatchAllRuleResponse = real.EmailRoutingCatchAllRuleResponse
type EmailRoutingDNSSettingsResponse = real.EmailRoutingDNSSettingsResponse
type EmailRoutingDestinationAddress = real.EmailRoutingDestinationAddress
type EmailRoutingRule = real.EmailRoutingRule
type EmailRoutingRuleAction = real.EmailRoutingRuleAction
type EmailRoutingRuleMatcher = real.EmailRoutingRuleMatcher
type EmailRoutingSettings = real.EmailRoutingSettings
type EmailRoutingSettingsResponse = real.EmailRoutingSettingsResponse
type Enabled = real.Enabled

const EndsWith = real.EndsWith

type EnvVarType = real.EnvVarType
type EnvironmentVariable = real.EnvironmentVariable
type EnvironmentVariableMap = real.EnvironmentVariableMap

const Equal = real.Equal

var ErrAPIKeysAndTokensAreMutuallyExclusive = real.ErrAPIKeysAndTokensAreMutuallyExclusive
var ErrAccountIDAndZoneIDAreMutuallyExclusive = real.ErrAccountIDAndZoneIDAreMutuallyExclusive
var ErrAccountIDOrZoneIDAreRequired = real.ErrAccountIDOrZoneIDAreRequired
var ErrConflictingWebAnalyticSiteHost = real.ErrConflictingWebAnalyticSiteHost
var ErrInvalidImagesAPIVersion = real.ErrInvalidImagesAPIVersion
var ErrInvalidNetworkValue = real.ErrInvalidNetworkValue
var ErrInvalidStatusCode = real.ErrInvalidStatusCode
var ErrInvalidTusResumable = real.ErrInvalidTusResumable
var ErrMarshallingTUSMetadata = real.ErrMarshallingTUSMetadata
var ErrMissingASN = real.ErrMissingASN
var ErrMissingAccountID = real.ErrMissingAccountID
var ErrMissingBINDContents = real.ErrMissingBINDContents
var ErrMissingBucketName = real.ErrMissingBucketName
var ErrMissingCertificateID = real.ErrMissingCertificateID
var ErrMissingClusterID = real.ErrMissingClusterID
var ErrMissingCredentials = real.ErrMissingCredentials
var ErrMissingDNSRecordID = real.ErrMissingDNSRecordID
var ErrMissingDatabaseID = real.ErrMissingDatabaseID
var ErrMissingDatasetID = real.ErrMissingDatasetID
var ErrMissingDeploymentID = real.ErrMissingDeploymentID
var ErrMissingDomain = real.ErrMissingDomain
var ErrMissingEnvironment = real.ErrMissingEnvironment
var ErrMissingFilePath = real.ErrMissingFilePath
var ErrMissingHostname = real.ErrMissingHostname
var ErrMissingHostnameTLSSettingName = real.ErrMissingHostnameTLSSettingName
var ErrMissingHyperdriveConfigID = real.ErrMissingHyperdriveConfigID
var ErrMissingHyperdriveConfigName = real.ErrMissingHyperdriveConfigName
var ErrMissingHyperdriveConfigOriginDatabase = real.ErrMissingHyperdriveConfigOriginDatabase
var ErrMissingHyperdriveConfigOriginHost = real.ErrMissingHyperdriveConfigOriginHost
var ErrMissingHyperdriveConfigOriginPassword = real.ErrMissingHyperdriveConfigOriginPassword
var ErrMissingHyperdriveConfigOriginScheme = real.ErrMissingHyperdriveConfigOriginScheme
var ErrMissingHyperdriveConfigOriginUser = real.ErrMissingHyperdriveConfigOriginUser
var ErrMissingIP = real.ErrMissingIP
var ErrMissingIdentifier = real.ErrMissingIdentifier
var ErrMissingImageID = real.ErrMissingImageID
var ErrMissingListID = real.ErrMissingListID
var ErrMissingLoadBalancerID = real.ErrMissingLoadBalancerID
var ErrMissingMaxDuration = real.ErrMissingMaxDuration
var ErrMissingMemberRolesOrPolicies = real.ErrMissingMemberRolesOrPolicies
var ErrMissingMonitorID = real.ErrMissingMonitorID
var ErrMissingName = real.ErrMissingName
var ErrMissingNetwork = real.ErrMissingNetwork
var ErrMissingObservatoryTestID = real.ErrMissingObservatoryTestID
var ErrMissingObservatoryUrl = real.ErrMissingObservatoryUrl
var ErrMissingPermissionGroupID = real.ErrMissingPermissionGroupID
var ErrMissingPoolID = real.ErrMissingPoolID
var ErrMissingProfileID = real.ErrMissingProfileID
var ErrMissingProjectName = real.ErrMissingProjectName
var ErrMissingQueueConsumerName = real.ErrMissingQueueConsumerName
var ErrMissingQueueName = real.ErrMissingQueueName
var ErrMissingResourceIdentifier = real.ErrMissingResourceIdentifier
var ErrMissingRiskScoreIntegrationID = real.ErrMissingRiskScoreIntegrationID
var ErrMissingRuleID = real.ErrMissingRuleID
var ErrMissingRulesetPhase = real.ErrMissingRulesetPhase
var ErrMissingScriptName = real.ErrMissingScriptName
var ErrMissingService = real.ErrMissingService
var ErrMissingServiceTokenUUID = real.ErrMissingServiceTokenUUID
var ErrMissingSettingName = real.ErrMissingSettingName
var ErrMissingSiteKey = real.ErrMissingSiteKey
var ErrMissingTailID = real.ErrMissingTailID
var ErrMissingTarget = real.ErrMissingTarget
var ErrMissingTunnelID = real.ErrMissingTunnelID
var ErrMissingTusResumable = real.ErrMissingTusResumable
var ErrMissingUID = real.ErrMissingUID
var ErrMissingURL = real.ErrMissingURL
var ErrMissingUploadLength = real.ErrMissingUploadLength
var ErrMissingUploadURL = real.ErrMissingUploadURL
var ErrMissingVideoID = real.ErrMissingVideoID
var ErrMissingVnetName = real.ErrMissingVnetName
var ErrMissingWaitingRoomID = real.ErrMissingWaitingRoomID
var ErrMissingWaitingRoomRuleID = real.ErrMissingWaitingRoomRuleID
var ErrMissingWebAnalyticsRuleID = real.ErrMissingWebAnalyticsRuleID
var ErrMissingWebAnalyticsRulesetID = real.ErrMissingWebAnalyticsRulesetID
var ErrMissingWebAnalyticsSiteHost = real.ErrMissingWebAnalyticsSiteHost
var ErrMissingWebAnalyticsSiteTag = real.ErrMissingWebAnalyticsSiteTag
var ErrMissingWorkerRouteID = real.ErrMissingWorkerRouteID
var ErrMissingZoneID = real.ErrMissingZoneID
var ErrNotEnoughFilterIDsProvided = real.ErrNotEnoughFilterIDsProvided
var ErrOriginPortInvalid = real.ErrOriginPortInvalid
var ErrRequiredAccountLevelResourceContainer = real.ErrRequiredAccountLevelResourceContainer
var ErrRequiredZoneLevelResourceContainer = real.ErrRequiredZoneLevelResourceContainer

type Error = real.Error
type ErrorType = real.ErrorType

const ErrorTypeAuthentication = real.ErrorTypeAuthentication
const ErrorTypeAuthorization = real.ErrorTypeAuthorization
const ErrorTypeNotFound = real.ErrorTypeNotFound
const ErrorTypeRateLimit = real.ErrorTypeRateLimit
const ErrorTypeRequest = real.ErrorTypeRequest
const ErrorTypeService = real.ErrorTypeService

type ExportDNSRecordsParams = real.ExportDNSRecordsParams
type FallbackDomain = real.FallbackDomain
type FallbackDomainResponse = real.FallbackDomainResponse
type FallbackOrigin = real.FallbackOrigin
type FallbackOriginResponse = real.FallbackOriginResponse
type Filter = real.Filter
type FilterCreateParams = real.FilterCreateParams
type FilterDetailResponse = real.FilterDetailResponse
type FilterListParams = real.FilterListParams
type FilterUpdateParams = real.FilterUpdateParams
type FilterValidateExpression = real.FilterValidateExpression
type FilterValidateExpressionResponse = real.FilterValidateExpressionResponse
type FilterValidationExpressionMessage = real.FilterValidationExpressionMessage
type FiltersDetailResponse = real.FiltersDetailResponse
type FirewallRule = real.FirewallRule
type FirewallRuleCreateParams = real.FirewallRuleCreateParams
type FirewallRuleListParams = real.FirewallRuleListParams
type FirewallRuleResponse = real.FirewallRuleResponse
type FirewallRuleUpdateParams = real.FirewallRuleUpdateParams
type FirewallRulesDetailResponse = real.FirewallRulesDetailResponse

var Float32 = real.Float32
var Float32Map = real.Float32Map
var Float32Ptr = real.Float32Ptr
var Float32PtrMap = real.Float32PtrMap
var Float32PtrSlice = real.Float32PtrSlice
var Float32Slice = real.Float32Slice
var Float64 = real.Float64
var Float64Map = real.Float64Map
var Float64Ptr = real.Float64Ptr
var Float64PtrMap = real.Float64PtrMap
var Float64PtrSlice = real.Float64PtrSlice
var Float64Slice = real.Float64Slice

const Forbidden = real.Forbidden

type GatewayCategoriesResponse = real.GatewayCategoriesResponse
type GatewayCategory = real.GatewayCategory
type GenerateMagicTransitIPsecTunnelPSKResponse = real.GenerateMagicTransitIPsecTunnelPSKResponse
type GetAPIShieldOperationParams = real.GetAPIShieldOperationParams
type GetAPIShieldOperationSchemaValidationSettingsParams = real.GetAPIShieldOperationSchemaValidationSettingsParams
type GetAPIShieldSchemaParams = real.GetAPIShieldSchemaParams
type GetAccessMutualTLSHostnameSettingsResponse = real.GetAccessMutualTLSHostnameSettingsResponse
type GetAccessOrganizationParams = real.GetAccessOrganizationParams
type GetAccessPolicyParams = real.GetAccessPolicyParams
type GetAccessUserLastSeenIdentityResult = real.GetAccessUserLastSeenIdentityResult
type GetAccessUserSingleActiveSessionResponse = real.GetAccessUserSingleActiveSessionResponse
type GetAccessUserSingleActiveSessionResult = real.GetAccessUserSingleActiveSessionResult
type GetAddressMapResponse = real.GetAddressMapResponse
type GetAdvertisementStatusResponse = real.GetAdvertisementStatusResponse
type GetAuditSSHSettingsParams = real.GetAuditSSHSettingsParams
type GetBulkDomainDetailsParameters = real.GetBulkDomainDetailsParameters
type GetBulkDomainDetailsResponse = real.GetBulkDomainDetailsResponse
type GetCacheReserveParams = real.GetCacheReserveParams
type GetCustomNameserverZoneMetadataParams = real.GetCustomNameserverZoneMetadataParams
type GetCustomNameserversParams = real.GetCustomNameserversParams
type GetDCVDelegationParams = real.GetDCVDelegationParams
type GetDLPPayloadLogSettingsParams = real.GetDLPPayloadLogSettingsParams
type GetDNSFirewallClusterParams = real.GetDNSFirewallClusterParams
type GetDNSFirewallUserAnalyticsParams = real.GetDNSFirewallUserAnalyticsParams
type GetDefaultDeviceSettingsPolicyParams = real.GetDefaultDeviceSettingsPolicyParams
type GetDeviceClientCertificatesParams = real.GetDeviceClientCertificatesParams
type GetDeviceSettingsPolicyParams = real.GetDeviceSettingsPolicyParams
type GetDomainDetailsParameters = real.GetDomainDetailsParameters
type GetDomainHistoryParameters = real.GetDomainHistoryParameters
type GetDomainHistoryResponse = real.GetDomainHistoryResponse
type GetEligibleZonesAccountCustomNameserversParams = real.GetEligibleZonesAccountCustomNameserversParams
type GetEmailRoutingRuleResponse = real.GetEmailRoutingRuleResponse
type GetIPPrefixResponse = real.GetIPPrefixResponse
type GetLogpushFieldsParams = real.GetLogpushFieldsParams
type GetLogpushOwnershipChallengeParams = real.GetLogpushOwnershipChallengeParams
type GetMagicFirewallRulesetResponse = real.GetMagicFirewallRulesetResponse
type GetMagicTransitGRETunnelResponse = real.GetMagicTransitGRETunnelResponse
type GetMagicTransitIPsecTunnelResponse = real.GetMagicTransitIPsecTunnelResponse
type GetMagicTransitStaticRouteResponse = real.GetMagicTransitStaticRouteResponse
type GetObservatoryPageTestParams = real.GetObservatoryPageTestParams
type GetObservatoryPageTrendParams = real.GetObservatoryPageTrendParams
type GetObservatoryScheduledPageTestParams = real.GetObservatoryScheduledPageTestParams

var GetOriginCARootCertificate = real.GetOriginCARootCertificate

type GetPageShieldSettingsParams = real.GetPageShieldSettingsParams
type GetPagesDeploymentInfoParams = real.GetPagesDeploymentInfoParams
type GetPagesDeploymentLogsParams = real.GetPagesDeploymentLogsParams
type GetPagesDeploymentStageLogsParams = real.GetPagesDeploymentStageLogsParams
type GetRegionalTieredCacheParams = real.GetRegionalTieredCacheParams
type GetRulesetResponse = real.GetRulesetResponse
type GetWebAnalyticsSiteParams = real.GetWebAnalyticsSiteParams
type GetWorkersForPlatformsDispatchNamespaceResponse = real.GetWorkersForPlatformsDispatchNamespaceResponse
type GetWorkersKVParams = real.GetWorkersKVParams
type GetZarazConfigsByIdResponse = real.GetZarazConfigsByIdResponse
type GetZoneHoldParams = real.GetZoneHoldParams
type GetZoneSettingParams = real.GetZoneSettingParams

const GreaterThan = real.GreaterThan
const GreaterThanOrEqual = real.GreaterThanOrEqual

var HTTPClient = real.HTTPClient
var Headers = real.Headers

type Healthcheck = real.Healthcheck
type HealthcheckHTTPConfig = real.HealthcheckHTTPConfig
type HealthcheckListResponse = real.HealthcheckListResponse
type HealthcheckResponse = real.HealthcheckResponse
type HealthcheckTCPConfig = real.HealthcheckTCPConfig

const High = real.High

type Hostname = real.Hostname
type HostnameTLSSetting = real.HostnameTLSSetting
type HostnameTLSSettingCiphers = real.HostnameTLSSettingCiphers
type HostnameTLSSettingCiphersResponse = real.HostnameTLSSettingCiphersResponse
type HostnameTLSSettingResponse = real.HostnameTLSSettingResponse
type HostnameTLSSettingsCiphersResponse = real.HostnameTLSSettingsCiphersResponse
type HostnameTLSSettingsResponse = real.HostnameTLSSettingsResponse

const HttpFilter = real.HttpFilter

type HyperdriveConfig = real.HyperdriveConfig
type HyperdriveConfigCaching = real.HyperdriveConfigCaching
type HyperdriveConfigListResponse = real.HyperdriveConfigListResponse
type HyperdriveConfigOrigin = real.HyperdriveConfigOrigin
type HyperdriveConfigOriginWithSecrets = real.HyperdriveConfigOriginWithSecrets
type HyperdriveConfigResponse = real.HyperdriveConfigResponse
type HyperdriveOriginType = real.HyperdriveOriginType
type IPAccessRule = real.IPAccessRule
type IPAccessRuleConfiguration = real.IPAccessRuleConfiguration

const IPAccessRulesConfigurationTarget = real.IPAccessRulesConfigurationTarget
const IPAccessRulesConfigurationValue = real.IPAccessRulesConfigurationValue
const IPAccessRulesMatchOptionAll = real.IPAccessRulesMatchOptionAll
const IPAccessRulesMatchOptionAny = real.IPAccessRulesMatchOptionAny
const IPAccessRulesModeBlock = real.IPAccessRulesModeBlock
const IPAccessRulesModeChallenge = real.IPAccessRulesModeChallenge
const IPAccessRulesModeJsChallenge = real.IPAccessRulesModeJsChallenge
const IPAccessRulesModeManagedChallenge = real.IPAccessRulesModeManagedChallenge

type IPAccessRulesModeOption = real.IPAccessRulesModeOption

const IPAccessRulesModeWhitelist = real.IPAccessRulesModeWhitelist

type IPIntelligence = real.IPIntelligence
type IPIntelligenceItem = real.IPIntelligenceItem
type IPIntelligenceListParameters = real.IPIntelligenceListParameters
type IPIntelligenceListResponse = real.IPIntelligenceListResponse
type IPIntelligenceParameters = real.IPIntelligenceParameters
type IPIntelligencePassiveDNSParameters = real.IPIntelligencePassiveDNSParameters
type IPIntelligencePassiveDNSResponse = real.IPIntelligencePassiveDNSResponse
type IPIntelligenceResponse = real.IPIntelligenceResponse
type IPList = real.IPList
type IPListBulkOperation = real.IPListBulkOperation
type IPListBulkOperationResponse = real.IPListBulkOperationResponse
type IPListCreateRequest = real.IPListCreateRequest
type IPListDeleteResponse = real.IPListDeleteResponse
type IPListItem = real.IPListItem
type IPListItemCreateRequest = real.IPListItemCreateRequest
type IPListItemCreateResponse = real.IPListItemCreateResponse
type IPListItemDeleteItemRequest = real.IPListItemDeleteItemRequest
type IPListItemDeleteRequest = real.IPListItemDeleteRequest
type IPListItemDeleteResponse = real.IPListItemDeleteResponse
type IPListItemsGetResponse = real.IPListItemsGetResponse
type IPListItemsListResponse = real.IPListItemsListResponse
type IPListListResponse = real.IPListListResponse
type IPListResponse = real.IPListResponse

const IPListTypeIP = real.IPListTypeIP

type IPListUpdateRequest = real.IPListUpdateRequest
type IPPassiveDNS = real.IPPassiveDNS
type IPPrefix = real.IPPrefix
type IPPrefixUpdateRequest = real.IPPrefixUpdateRequest
type IPRanges = real.IPRanges
type IPRangesResponse = real.IPRangesResponse

var IPs = real.IPs

type IPsResponse = real.IPsResponse

const IdentityDenied = real.IdentityDenied

type Image = real.Image
type ImageDetailsResponse = real.ImageDetailsResponse
type ImageDirectUploadURL = real.ImageDirectUploadURL
type ImageDirectUploadURLResponse = real.ImageDirectUploadURLResponse
type ImagesAPIVersion = real.ImagesAPIVersion

const ImagesAPIVersionV1 = real.ImagesAPIVersionV1
const ImagesAPIVersionV2 = real.ImagesAPIVersionV2

type ImagesListResponse = real.ImagesListResponse
type ImagesStatsCount = real.ImagesStatsCount
type ImagesStatsResponse = real.ImagesStatsResponse
type ImagesVariant = real.ImagesVariant
type ImagesVariantResponse = real.ImagesVariantResponse
type ImagesVariantResult = real.ImagesVariantResult
type ImagesVariantsOptions = real.ImagesVariantsOptions
type ImportDNSRecordsParams = real.ImportDNSRecordsParams
type IngressIPRule = real.IngressIPRule

var Int = real.Int
var Int16 = real.Int16
var Int16Map = real.Int16Map
var Int16Ptr = real.Int16Ptr
var Int16PtrMap = real.Int16PtrMap
var Int16PtrSlice = real.Int16PtrSlice
var Int16Slice = real.Int16Slice
var Int32 = real.Int32
var Int32Map = real.Int32Map
var Int32Ptr = real.Int32Ptr
var Int32PtrMap = real.Int32PtrMap
var Int32PtrSlice = real.Int32PtrSlice
var Int32Slice = real.Int32Slice
var Int64 = real.Int64
var Int64Map = real.Int64Map
var Int64Ptr = real.Int64Ptr
var Int64PtrMap = real.Int64PtrMap
var Int64PtrSlice = real.Int64PtrSlice
var Int64Slice = real.Int64Slice
var Int8 = real.Int8
var Int8Map = real.Int8Map
var Int8Ptr = real.Int8Ptr
var Int8PtrMap = real.Int8PtrMap
var Int8PtrSlice = real.Int8PtrSlice
var Int8Slice = real.Int8Slice
var IntMap = real.IntMap
var IntPtr = real.IntPtr
var IntPtrMap = real.IntPtrMap
var IntPtrSlice = real.IntPtrSlice
var IntSlice = real.IntSlice

type IntelligenceASNOverviewParameters = real.IntelligenceASNOverviewParameters
type IntelligenceASNResponse = real.IntelligenceASNResponse
type IntelligenceASNSubnetResponse = real.IntelligenceASNSubnetResponse
type IntelligenceASNSubnetsParameters = real.IntelligenceASNSubnetsParameters

const Isolate = real.Isolate

type KeylessSSL = real.KeylessSSL
type KeylessSSLCreateRequest = real.KeylessSSLCreateRequest
type KeylessSSLDetailResponse = real.KeylessSSLDetailResponse
type KeylessSSLListResponse = real.KeylessSSLListResponse
type KeylessSSLUpdateRequest = real.KeylessSSLUpdateRequest

const L4Filter = real.L4Filter
const L4Override = real.L4Override
const LessThan = real.LessThan
const LessThanOrEqual = real.LessThanOrEqual

type Level = real.Level

const LevelDebug = real.LevelDebug
const LevelError = real.LevelError
const LevelInfo = real.LevelInfo
const LevelNull = real.LevelNull
const LevelWarn = real.LevelWarn

type LeveledLogger = real.LeveledLogger
type LeveledLoggerInterface = real.LeveledLoggerInterface
type List = real.List
type ListAPIShieldDiscoveryOperationsParams = real.ListAPIShieldDiscoveryOperationsParams
type ListAPIShieldOperationsParams = real.ListAPIShieldOperationsParams
type ListAPIShieldSchemasParams = real.ListAPIShieldSchemasParams
type ListAccessApplicationsParams = real.ListAccessApplicationsParams
type ListAccessCACertificatesParams = real.ListAccessCACertificatesParams
type ListAccessCustomPagesParams = real.ListAccessCustomPagesParams
type ListAccessGroupsParams = real.ListAccessGroupsParams
type ListAccessIdentityProvidersParams = real.ListAccessIdentityProvidersParams
type ListAccessMutualTLSCertificatesParams = real.ListAccessMutualTLSCertificatesParams
type ListAccessPoliciesParams = real.ListAccessPoliciesParams
type ListAccessServiceTokensParams = real.ListAccessServiceTokensParams
type ListAccessTagsParams = real.ListAccessTagsParams
type ListAccountRolesParams = real.ListAccountRolesParams
type ListAddressMapResponse = real.ListAddressMapResponse
type ListAddressMapsParams = real.ListAddressMapsParams
type ListBulkOperation = real.ListBulkOperation
type ListBulkOperationResponse = real.ListBulkOperationResponse
type ListCreateItemParams = real.ListCreateItemParams
type ListCreateItemsParams = real.ListCreateItemsParams
type ListCreateParams = real.ListCreateParams
type ListCreateRequest = real.ListCreateRequest
type ListD1DatabasesParams = real.ListD1DatabasesParams
type ListD1Response = real.ListD1Response
type ListDLPDatasetsParams = real.ListDLPDatasetsParams
type ListDLPProfilesParams = real.ListDLPProfilesParams
type ListDNSFirewallClustersParams = real.ListDNSFirewallClustersParams
type ListDNSRecordsParams = real.ListDNSRecordsParams
type ListDataLocalizationRegionalHostnamesParams = real.ListDataLocalizationRegionalHostnamesParams
type ListDataLocalizationRegionsParams = real.ListDataLocalizationRegionsParams
type ListDeleteItemsParams = real.ListDeleteItemsParams
type ListDeleteParams = real.ListDeleteParams
type ListDeleteResponse = real.ListDeleteResponse
type ListDeviceDexTestParams = real.ListDeviceDexTestParams
type ListDeviceManagedNetworksParams = real.ListDeviceManagedNetworksParams
type ListDeviceSettingsPoliciesParams = real.ListDeviceSettingsPoliciesParams
type ListDeviceSettingsPoliciesResponse = real.ListDeviceSettingsPoliciesResponse
type ListDirection = real.ListDirection

const ListDirectionAsc = real.ListDirectionAsc
const ListDirectionDesc = real.ListDirectionDesc

type ListEmailRoutingAddressParameters = real.ListEmailRoutingAddressParameters
type ListEmailRoutingAddressResponse = real.ListEmailRoutingAddressResponse
type ListEmailRoutingRuleResponse = real.ListEmailRoutingRuleResponse
type ListEmailRoutingRulesParameters = real.ListEmailRoutingRulesParameters
type ListGatewayCategoriesParams = real.ListGatewayCategoriesParams
type ListGetBulkOperationParams = real.ListGetBulkOperationParams
type ListGetItemParams = real.ListGetItemParams
type ListGetParams = real.ListGetParams
type ListHostnameTLSSettingsCiphersParams = real.ListHostnameTLSSettingsCiphersParams
type ListHostnameTLSSettingsParams = real.ListHostnameTLSSettingsParams
type ListHyperdriveConfigParams = real.ListHyperdriveConfigParams
type ListIPAccessRulesFilters = real.ListIPAccessRulesFilters
type ListIPAccessRulesMatchOption = real.ListIPAccessRulesMatchOption
type ListIPAccessRulesOrderOption = real.ListIPAccessRulesOrderOption
type ListIPAccessRulesParams = real.ListIPAccessRulesParams
type ListIPAccessRulesResponse = real.ListIPAccessRulesResponse
type ListIPPrefixResponse = real.ListIPPrefixResponse
type ListImageVariantsParams = real.ListImageVariantsParams
type ListImageVariantsResult = real.ListImageVariantsResult
type ListImagesParams = real.ListImagesParams
type ListImagesVariantsResponse = real.ListImagesVariantsResponse
type ListItem = real.ListItem
type ListItemCreateRequest = real.ListItemCreateRequest
type ListItemCreateResponse = real.ListItemCreateResponse
type ListItemDeleteItemRequest = real.ListItemDeleteItemRequest
type ListItemDeleteRequest = real.ListItemDeleteRequest
type ListItemDeleteResponse = real.ListItemDeleteResponse
type ListItemsGetResponse = real.ListItemsGetResponse
type ListItemsListResponse = real.ListItemsListResponse
type ListListItemsParams = real.ListListItemsParams
type ListListResponse = real.ListListResponse
type ListListsParams = real.ListListsParams
type ListLoadBalancerMonitorParams = real.ListLoadBalancerMonitorParams
type ListLoadBalancerParams = real.ListLoadBalancerParams
type ListLoadBalancerPoolParams = real.ListLoadBalancerPoolParams
type ListLogpushJobsForDatasetParams = real.ListLogpushJobsForDatasetParams
type ListLogpushJobsParams = real.ListLogpushJobsParams
type ListMTLSCertificateAssociationsParams = real.ListMTLSCertificateAssociationsParams
type ListMTLSCertificatesParams = real.ListMTLSCertificatesParams
type ListMagicFirewallRulesetResponse = real.ListMagicFirewallRulesetResponse
type ListMagicTransitGRETunnelsResponse = real.ListMagicTransitGRETunnelsResponse
type ListMagicTransitIPsecTunnelsResponse = real.ListMagicTransitIPsecTunnelsResponse
type ListMagicTransitStaticRoutesResponse = real.ListMagicTransitStaticRoutesResponse
type ListManagedHeadersParams = real.ListManagedHeadersParams
type ListManagedHeadersResponse = real.ListManagedHeadersResponse
type ListObservatoryPageTestParams = real.ListObservatoryPageTestParams
type ListObservatoryPagesParams = real.ListObservatoryPagesParams
type ListOriginCertificatesParams = real.ListOriginCertificatesParams
type ListPageShieldConnectionsParams = real.ListPageShieldConnectionsParams
type ListPageShieldConnectionsResponse = real.ListPageShieldConnectionsResponse
type ListPageShieldPoliciesParams = real.ListPageShieldPoliciesParams
type ListPageShieldPoliciesResponse = real.ListPageShieldPoliciesResponse
type ListPageShieldScriptsParams = real.ListPageShieldScriptsParams
type ListPagesDeploymentsParams = real.ListPagesDeploymentsParams
type ListPagesProjectsParams = real.ListPagesProjectsParams
type ListPermissionGroupParams = real.ListPermissionGroupParams
type ListQueueConsumersParams = real.ListQueueConsumersParams
type ListQueueConsumersResponse = real.ListQueueConsumersResponse
type ListQueuesParams = real.ListQueuesParams
type ListR2BucketsParams = real.ListR2BucketsParams
type ListReplaceItemsParams = real.ListReplaceItemsParams
type ListResponse = real.ListResponse
type ListRiskScoreIntegrationParams = real.ListRiskScoreIntegrationParams
type ListRulesetResponse = real.ListRulesetResponse
type ListRulesetsParams = real.ListRulesetsParams
type ListStorageKeysResponse = real.ListStorageKeysResponse
type ListTeamListsParams = real.ListTeamListsParams
type ListTeamsListItemsParams = real.ListTeamsListItemsParams
type ListTurnstileWidgetParams = real.ListTurnstileWidgetParams
type ListTurnstileWidgetResponse = real.ListTurnstileWidgetResponse

const ListTypeASN = real.ListTypeASN
const ListTypeHostname = real.ListTypeHostname
const ListTypeIP = real.ListTypeIP
const ListTypeRedirect = real.ListTypeRedirect

type ListUpdateParams = real.ListUpdateParams
type ListUpdateRequest = real.ListUpdateRequest
type ListWaitingRoomRuleParams = real.ListWaitingRoomRuleParams
type ListWebAnalyticsRulesParams = real.ListWebAnalyticsRulesParams
type ListWebAnalyticsSitesParams = real.ListWebAnalyticsSitesParams
type ListWorkerBindingsParams = real.ListWorkerBindingsParams
type ListWorkerCronTriggersParams = real.ListWorkerCronTriggersParams
type ListWorkerRoutes = real.ListWorkerRoutes
type ListWorkerRoutesParams = real.ListWorkerRoutesParams
type ListWorkersDomainParams = real.ListWorkersDomainParams
type ListWorkersForPlatformsDispatchNamespaceResponse = real.ListWorkersForPlatformsDispatchNamespaceResponse
type ListWorkersKVNamespacesParams = real.ListWorkersKVNamespacesParams
type ListWorkersKVNamespacesResponse = real.ListWorkersKVNamespacesResponse
type ListWorkersKVsParams = real.ListWorkersKVsParams
type ListWorkersParams = real.ListWorkersParams
type ListWorkersSecretsParams = real.ListWorkersSecretsParams
type ListWorkersTailParameters = real.ListWorkersTailParameters
type ListWorkersTailResponse = real.ListWorkersTailResponse
type ListZarazConfigHistoryParams = real.ListZarazConfigHistoryParams
type LoadBalancer = real.LoadBalancer
type LoadBalancerFixedResponseData = real.LoadBalancerFixedResponseData
type LoadBalancerLoadShedding = real.LoadBalancerLoadShedding
type LoadBalancerMonitor = real.LoadBalancerMonitor
type LoadBalancerOrigin = real.LoadBalancerOrigin
type LoadBalancerOriginHealth = real.LoadBalancerOriginHealth
type LoadBalancerOriginSteering = real.LoadBalancerOriginSteering
type LoadBalancerPool = real.LoadBalancerPool
type LoadBalancerPoolHealth = real.LoadBalancerPoolHealth
type LoadBalancerPoolPopHealth = real.LoadBalancerPoolPopHealth
type LoadBalancerRule = real.LoadBalancerRule
type LoadBalancerRuleOverrides = real.LoadBalancerRuleOverrides
type LoadBalancerRuleOverridesSessionAffinityAttrs = real.LoadBalancerRuleOverridesSessionAffinityAttrs
type LocationStrategy = real.LocationStrategy
type LockdownListParams = real.LockdownListParams
type Logger = real.Logger
type LogpullRetentionConfiguration = real.LogpullRetentionConfiguration
type LogpullRetentionConfigurationResponse = real.LogpullRetentionConfigurationResponse
type LogpushDestinationExistsRequest = real.LogpushDestinationExistsRequest
type LogpushDestinationExistsResponse = real.LogpushDestinationExistsResponse
type LogpushFields = real.LogpushFields
type LogpushFieldsResponse = real.LogpushFieldsResponse
type LogpushGetOwnershipChallenge = real.LogpushGetOwnershipChallenge
type LogpushGetOwnershipChallengeRequest = real.LogpushGetOwnershipChallengeRequest
type LogpushGetOwnershipChallengeResponse = real.LogpushGetOwnershipChallengeResponse
type LogpushJob = real.LogpushJob
type LogpushJobDetailsResponse = real.LogpushJobDetailsResponse
type LogpushJobFilter = real.LogpushJobFilter
type LogpushJobFilters = real.LogpushJobFilters
type LogpushJobsResponse = real.LogpushJobsResponse
type LogpushOutputOptions = real.LogpushOutputOptions
type LogpushOwnershipChallengeValidationResponse = real.LogpushOwnershipChallengeValidationResponse
type LogpushValidateOwnershipChallengeRequest = real.LogpushValidateOwnershipChallengeRequest

const Low = real.Low
const MOVED = real.MOVED

type MTLSAssociation = real.MTLSAssociation
type MTLSAssociationResponse = real.MTLSAssociationResponse
type MTLSCertificate = real.MTLSCertificate
type MTLSCertificateResponse = real.MTLSCertificateResponse
type MTLSCertificatesResponse = real.MTLSCertificatesResponse
type MagicFirewallRuleset = real.MagicFirewallRuleset

const MagicFirewallRulesetKindRoot = real.MagicFirewallRulesetKindRoot
const MagicFirewallRulesetPhaseMagicTransit = real.MagicFirewallRulesetPhaseMagicTransit

type MagicFirewallRulesetRule = real.MagicFirewallRulesetRule
type MagicFirewallRulesetRuleAction = real.MagicFirewallRulesetRuleAction

const MagicFirewallRulesetRuleActionBlock = real.MagicFirewallRulesetRuleActionBlock

type MagicFirewallRulesetRuleActionParameters = real.MagicFirewallRulesetRuleActionParameters

const MagicFirewallRulesetRuleActionSkip = real.MagicFirewallRulesetRuleActionSkip

type MagicTransitGRETunnel = real.MagicTransitGRETunnel
type MagicTransitGRETunnelHealthcheck = real.MagicTransitGRETunnelHealthcheck
type MagicTransitIPsecTunnel = real.MagicTransitIPsecTunnel
type MagicTransitIPsecTunnelPskMetadata = real.MagicTransitIPsecTunnelPskMetadata
type MagicTransitStaticRoute = real.MagicTransitStaticRoute
type MagicTransitStaticRouteScope = real.MagicTransitStaticRouteScope
type MagicTransitTunnelHealthcheck = real.MagicTransitTunnelHealthcheck
type ManagedHeader = real.ManagedHeader
type ManagedHeaders = real.ManagedHeaders

const Medium = real.Medium

type MisCategorizationParameters = real.MisCategorizationParameters
type NamespaceBindingMap = real.NamespaceBindingMap
type NamespaceBindingValue = real.NamespaceBindingValue
type NamespaceOutboundOptions = real.NamespaceOutboundOptions

var NewAuthenticationError = real.NewAuthenticationError
var NewAuthorizationError = real.NewAuthorizationError
var NewNotFoundError = real.NewNotFoundError
var NewRatelimitError = real.NewRatelimitError
var NewRequestError = real.NewRequestError
var NewResourceGroup = real.NewResourceGroup
var NewResourceGroupForAccount = real.NewResourceGroupForAccount
var NewResourceGroupForZone = real.NewResourceGroupForZone
var NewServiceError = real.NewServiceError

const NoIsolate = real.NoIsolate
const NoScan = real.NoScan
const NotContains = real.NotContains
const NotEndsWith = real.NotEndsWith
const NotEqual = real.NotEqual

type NotFoundError = real.NotFoundError

const NotStartsWith = real.NotStartsWith

type NotificationAlertWithDescription = real.NotificationAlertWithDescription
type NotificationAvailableAlertsResponse = real.NotificationAvailableAlertsResponse
type NotificationEligibilityResponse = real.NotificationEligibilityResponse
type NotificationHistory = real.NotificationHistory
type NotificationHistoryResponse = real.NotificationHistoryResponse
type NotificationMechanismData = real.NotificationMechanismData
type NotificationMechanismIntegrations = real.NotificationMechanismIntegrations
type NotificationMechanismMetaData = real.NotificationMechanismMetaData
type NotificationMechanisms = real.NotificationMechanisms
type NotificationPagerDutyResource = real.NotificationPagerDutyResource
type NotificationPagerDutyResponse = real.NotificationPagerDutyResponse
type NotificationPoliciesResponse = real.NotificationPoliciesResponse
type NotificationPolicy = real.NotificationPolicy
type NotificationPolicyResponse = real.NotificationPolicyResponse
type NotificationResource = real.NotificationResource
type NotificationUpsertWebhooks = real.NotificationUpsertWebhooks
type NotificationWebhookIntegration = real.NotificationWebhookIntegration
type NotificationWebhookResponse = real.NotificationWebhookResponse
type NotificationWebhooksResponse = real.NotificationWebhooksResponse
type NotificationsGroupedByProduct = real.NotificationsGroupedByProduct
type OIDCClaimConfig = real.OIDCClaimConfig
type ObservatoryCountResponse = real.ObservatoryCountResponse
type ObservatoryLighthouseReport = real.ObservatoryLighthouseReport
type ObservatoryPage = real.ObservatoryPage
type ObservatoryPageTest = real.ObservatoryPageTest
type ObservatoryPageTestResponse = real.ObservatoryPageTestResponse
type ObservatoryPageTestsResponse = real.ObservatoryPageTestsResponse
type ObservatoryPageTrend = real.ObservatoryPageTrend
type ObservatoryPageTrendResponse = real.ObservatoryPageTrendResponse
type ObservatoryPagesResponse = real.ObservatoryPagesResponse
type ObservatorySchedule = real.ObservatorySchedule
type ObservatoryScheduleResponse = real.ObservatoryScheduleResponse
type ObservatoryScheduledPageTest = real.ObservatoryScheduledPageTest

const Off = real.Off
const On = real.On

type Operator = real.Operator
type Option = real.Option
type OrderDirection = real.OrderDirection

const OrderDirectionAsc = real.OrderDirectionAsc
const OrderDirectionDesc = real.OrderDirectionDesc

type OriginCACertificate = real.OriginCACertificate
type OriginCACertificateID = real.OriginCACertificateID
type OriginRequestConfig = real.OriginRequestConfig
type OutboundParamSchema = real.OutboundParamSchema

const Override = real.Override

type Owner = real.Owner

const PENDING = real.PENDING

type PageRule = real.PageRule
type PageRuleAction = real.PageRuleAction

var PageRuleActions = real.PageRuleActions

type PageRuleDetailResponse = real.PageRuleDetailResponse
type PageRuleTarget = real.PageRuleTarget
type PageRulesResponse = real.PageRulesResponse
type PageShield = real.PageShield
type PageShieldConnection = real.PageShieldConnection
type PageShieldPolicy = real.PageShieldPolicy
type PageShieldScript = real.PageShieldScript
type PageShieldScriptResponse = real.PageShieldScriptResponse
type PageShieldScriptVersion = real.PageShieldScriptVersion
type PageShieldScriptsResponse = real.PageShieldScriptsResponse
type PageShieldSettings = real.PageShieldSettings
type PageShieldSettingsResponse = real.PageShieldSettingsResponse
type PagesDeploymentLogEntry = real.PagesDeploymentLogEntry
type PagesDeploymentLogs = real.PagesDeploymentLogs
type PagesDeploymentStageLogEntry = real.PagesDeploymentStageLogEntry
type PagesDeploymentStageLogs = real.PagesDeploymentStageLogs
type PagesDomain = real.PagesDomain
type PagesDomainParameters = real.PagesDomainParameters
type PagesDomainResponse = real.PagesDomainResponse
type PagesDomainsParameters = real.PagesDomainsParameters
type PagesDomainsResponse = real.PagesDomainsResponse

const PagesPreviewAllBranches = real.PagesPreviewAllBranches
const PagesPreviewCustomBranches = real.PagesPreviewCustomBranches

type PagesPreviewDeploymentSetting = real.PagesPreviewDeploymentSetting

const PagesPreviewNoBranches = real.PagesPreviewNoBranches

type PagesProject = real.PagesProject
type PagesProjectBuildConfig = real.PagesProjectBuildConfig
type PagesProjectDeployment = real.PagesProjectDeployment
type PagesProjectDeploymentConfigEnvironment = real.PagesProjectDeploymentConfigEnvironment
type PagesProjectDeploymentConfigs = real.PagesProjectDeploymentConfigs
type PagesProjectDeploymentStage = real.PagesProjectDeploymentStage
type PagesProjectDeploymentTrigger = real.PagesProjectDeploymentTrigger
type PagesProjectDeploymentTriggerMetadata = real.PagesProjectDeploymentTriggerMetadata
type PagesProjectSource = real.PagesProjectSource
type PagesProjectSourceConfig = real.PagesProjectSourceConfig
type PaginationOptions = real.PaginationOptions
type PatchTeamsList = real.PatchTeamsList
type PatchTeamsListParams = real.PatchTeamsListParams
type PatchWaitingRoomSettingsParams = real.PatchWaitingRoomSettingsParams
type PerHostnameAuthenticatedOriginPullsCertificateDetails = real.PerHostnameAuthenticatedOriginPullsCertificateDetails
type PerHostnameAuthenticatedOriginPullsCertificateParams = real.PerHostnameAuthenticatedOriginPullsCertificateParams
type PerHostnameAuthenticatedOriginPullsCertificateResponse = real.PerHostnameAuthenticatedOriginPullsCertificateResponse
type PerHostnameAuthenticatedOriginPullsConfig = real.PerHostnameAuthenticatedOriginPullsConfig
type PerHostnameAuthenticatedOriginPullsConfigParams = real.PerHostnameAuthenticatedOriginPullsConfigParams
type PerHostnameAuthenticatedOriginPullsDetails = real.PerHostnameAuthenticatedOriginPullsDetails
type PerHostnameAuthenticatedOriginPullsDetailsResponse = real.PerHostnameAuthenticatedOriginPullsDetailsResponse
type PerHostnamesAuthenticatedOriginPullsDetailsResponse = real.PerHostnamesAuthenticatedOriginPullsDetailsResponse
type PerZoneAuthenticatedOriginPullsCertificateDetails = real.PerZoneAuthenticatedOriginPullsCertificateDetails
type PerZoneAuthenticatedOriginPullsCertificateParams = real.PerZoneAuthenticatedOriginPullsCertificateParams
type PerZoneAuthenticatedOriginPullsCertificateResponse = real.PerZoneAuthenticatedOriginPullsCertificateResponse
type PerZoneAuthenticatedOriginPullsCertificatesResponse = real.PerZoneAuthenticatedOriginPullsCertificatesResponse
type PerZoneAuthenticatedOriginPullsSettings = real.PerZoneAuthenticatedOriginPullsSettings
type PerZoneAuthenticatedOriginPullsSettingsResponse = real.PerZoneAuthenticatedOriginPullsSettingsResponse
type Permission = real.Permission
type PermissionGroup = real.PermissionGroup
type PermissionGroupDetailResponse = real.PermissionGroupDetailResponse
type PermissionGroupListResponse = real.PermissionGroupListResponse
type PhishingScan = real.PhishingScan
type PhishingScanParameters = real.PhishingScanParameters
type PhishingScanResponse = real.PhishingScanResponse
type Placement = real.Placement
type PlacementMode = real.PlacementMode

const PlacementModeOff = real.PlacementModeOff
const PlacementModeSmart = real.PlacementModeSmart
const PlainText = real.PlainText

type Policy = real.Policy
type Polish = real.Polish

var PolishFromString = real.PolishFromString

const PolishLossless = real.PolishLossless
const PolishLossy = real.PolishLossy
const PolishOff = real.PolishOff

type ProxyProtocol = real.ProxyProtocol
type PublishZarazConfigParams = real.PublishZarazConfigParams
type PurgeCacheRequest = real.PurgeCacheRequest
type PurgeCacheResponse = real.PurgeCacheResponse
type QueryD1DatabaseParams = real.QueryD1DatabaseParams
type QueryD1Response = real.QueryD1Response
type Queue = real.Queue
type QueueConsumer = real.QueueConsumer
type QueueConsumerResponse = real.QueueConsumerResponse
type QueueConsumerSettings = real.QueueConsumerSettings
type QueueListResponse = real.QueueListResponse
type QueueProducer = real.QueueProducer
type QueueResponse = real.QueueResponse
type R2BindingMap = real.R2BindingMap
type R2BindingValue = real.R2BindingValue
type R2Bucket = real.R2Bucket
type R2BucketListResponse = real.R2BucketListResponse
type R2BucketResponse = real.R2BucketResponse
type R2Buckets = real.R2Buckets
type RandomSteering = real.RandomSteering
type RateLimit = real.RateLimit
type RateLimitAction = real.RateLimitAction
type RateLimitActionResponse = real.RateLimitActionResponse
type RateLimitCorrelate = real.RateLimitCorrelate
type RateLimitKeyValue = real.RateLimitKeyValue
type RateLimitRequestMatcher = real.RateLimitRequestMatcher
type RateLimitResponseMatcher = real.RateLimitResponseMatcher
type RateLimitResponseMatcherHeader = real.RateLimitResponseMatcherHeader
type RateLimitTrafficMatcher = real.RateLimitTrafficMatcher
type RatelimitError = real.RatelimitError
type RawResponse = real.RawResponse
type Redirect = real.Redirect
type RefreshTokenOptions = real.RefreshTokenOptions
type Region = real.Region
type RegionalHostname = real.RegionalHostname
type RegionalTieredCache = real.RegionalTieredCache
type RegionalTieredCacheDetailsResponse = real.RegionalTieredCacheDetailsResponse
type RegistrantContact = real.RegistrantContact
type RegistrarDomain = real.RegistrarDomain
type RegistrarDomainConfiguration = real.RegistrarDomainConfiguration
type RegistrarDomainDetailResponse = real.RegistrarDomainDetailResponse
type RegistrarDomainsDetailResponse = real.RegistrarDomainsDetailResponse
type RegistrarTransferIn = real.RegistrarTransferIn
type RemoteIdentities = real.RemoteIdentities
type ReplaceWaitingRoomRuleParams = real.ReplaceWaitingRoomRuleParams
type ReqOption = real.ReqOption
type RequestError = real.RequestError

const Resolve = real.Resolve

type ResolvesToRefs = real.ResolvesToRefs
type ResourceContainer = real.ResourceContainer
type ResourceGroup = real.ResourceGroup

var ResourceIdentifier = real.ResourceIdentifier

type ResourceType = real.ResourceType
type Response = real.Response
type ResponseInfo = real.ResponseInfo
type ResultInfo = real.ResultInfo
type ResultInfoCursors = real.ResultInfoCursors
type RetryPagesDeploymentParams = real.RetryPagesDeploymentParams
type RetryPolicy = real.RetryPolicy
type ReverseRecords = real.ReverseRecords
type RevokeAccessUserTokensParams = real.RevokeAccessUserTokensParams
type RiskLevel = real.RiskLevel

var RiskLevelFromString = real.RiskLevelFromString

type RiskScoreIntegration = real.RiskScoreIntegration
type RiskScoreIntegrationCreateRequest = real.RiskScoreIntegrationCreateRequest
type RiskScoreIntegrationListResponse = real.RiskScoreIntegrationListResponse
type RiskScoreIntegrationResponse = real.RiskScoreIntegrationResponse
type RiskScoreIntegrationUpdateRequest = real.RiskScoreIntegrationUpdateRequest
type RiskTypes = real.RiskTypes
type RollbackPagesDeploymentParams = real.RollbackPagesDeploymentParams
type RotateTurnstileWidgetParams = real.RotateTurnstileWidgetParams
type RouteLevel = real.RouteLevel
type RouteRoot = real.RouteRoot
type Ruleset = real.Ruleset
type RulesetActionParameterProduct = real.RulesetActionParameterProduct

const RulesetActionParameterProductBIC = real.RulesetActionParameterProductBIC
const RulesetActionParameterProductHOT = real.RulesetActionParameterProductHOT
const RulesetActionParameterProductRateLimit = real.RulesetActionParameterProductRateLimit
const RulesetActionParameterProductSecurityLevel = real.RulesetActionParameterProductSecurityLevel
const RulesetActionParameterProductUABlock = real.RulesetActionParameterProductUABlock

var RulesetActionParameterProductValues = real.RulesetActionParameterProductValues

const RulesetActionParameterProductWAF = real.RulesetActionParameterProductWAF
const RulesetActionParameterProductZoneLockdown = real.RulesetActionParameterProductZoneLockdown

type RulesetActionParametersLogCustomField = real.RulesetActionParametersLogCustomField
type RulesetKind = real.RulesetKind

const RulesetKindCustom = real.RulesetKindCustom
const RulesetKindManaged = real.RulesetKindManaged
const RulesetKindRoot = real.RulesetKindRoot

var RulesetKindValues = real.RulesetKindValues

const RulesetKindZone = real.RulesetKindZone

type RulesetPhase = real.RulesetPhase

const RulesetPhaseDDoSL4 = real.RulesetPhaseDDoSL4
const RulesetPhaseDDoSL7 = real.RulesetPhaseDDoSL7
const RulesetPhaseHTTPConfigSettings = real.RulesetPhaseHTTPConfigSettings
const RulesetPhaseHTTPCustomErrors = real.RulesetPhaseHTTPCustomErrors
const RulesetPhaseHTTPLogCustomFields = real.RulesetPhaseHTTPLogCustomFields
const RulesetPhaseHTTPRatelimit = real.RulesetPhaseHTTPRatelimit
const RulesetPhaseHTTPRequestCacheSettings = real.RulesetPhaseHTTPRequestCacheSettings
const RulesetPhaseHTTPRequestDynamicRedirect = real.RulesetPhaseHTTPRequestDynamicRedirect
const RulesetPhaseHTTPRequestFirewallCustom = real.RulesetPhaseHTTPRequestFirewallCustom
const RulesetPhaseHTTPRequestFirewallManaged = real.RulesetPhaseHTTPRequestFirewallManaged
const RulesetPhaseHTTPRequestLateTransform = real.RulesetPhaseHTTPRequestLateTransform
const RulesetPhaseHTTPRequestOrigin = real.RulesetPhaseHTTPRequestOrigin
const RulesetPhaseHTTPRequestRedirect = real.RulesetPhaseHTTPRequestRedirect
const RulesetPhaseHTTPRequestSBFM = real.RulesetPhaseHTTPRequestSBFM
const RulesetPhaseHTTPRequestSanitize = real.RulesetPhaseHTTPRequestSanitize
const RulesetPhaseHTTPRequestTransform = real.RulesetPhaseHTTPRequestTransform
const RulesetPhaseHTTPResponseCompression = real.RulesetPhaseHTTPResponseCompression
const RulesetPhaseHTTPResponseFirewallManaged = real.RulesetPhaseHTTPResponseFirewallManaged
const RulesetPhaseHTTPResponseHeadersTransform = real.RulesetPhaseHTTPResponseHeadersTransform
const RulesetPhaseMagicTransit = real.RulesetPhaseMagicTransit

var RulesetPhaseValues = real.RulesetPhaseValues

type RulesetRule = real.RulesetRule
type RulesetRuleAction = real.RulesetRuleAction

const RulesetRuleActionBlock = real.RulesetRuleActionBlock
const RulesetRuleActionChallenge = real.RulesetRuleActionChallenge
const RulesetRuleActionCompressResponse = real.RulesetRuleActionCompressResponse
const RulesetRuleActionDDoSDynamic = real.RulesetRuleActionDDoSDynamic
const RulesetRuleActionDDoSMitigation = real.RulesetRuleActionDDoSMitigation
const RulesetRuleActionExecute = real.RulesetRuleActionExecute
const RulesetRuleActionForceConnectionClose = real.RulesetRuleActionForceConnectionClose
const RulesetRuleActionJSChallenge = real.RulesetRuleActionJSChallenge
const RulesetRuleActionLog = real.RulesetRuleActionLog
const RulesetRuleActionLogCustomField = real.RulesetRuleActionLogCustomField
const RulesetRuleActionManagedChallenge = real.RulesetRuleActionManagedChallenge

type RulesetRuleActionParameters = real.RulesetRuleActionParameters
type RulesetRuleActionParametersAutoMinify = real.RulesetRuleActionParametersAutoMinify
type RulesetRuleActionParametersBlockResponse = real.RulesetRuleActionParametersBlockResponse
type RulesetRuleActionParametersBrowserTTL = real.RulesetRuleActionParametersBrowserTTL
type RulesetRuleActionParametersCacheKey = real.RulesetRuleActionParametersCacheKey
type RulesetRuleActionParametersCacheReserve = real.RulesetRuleActionParametersCacheReserve
type RulesetRuleActionParametersCategories = real.RulesetRuleActionParametersCategories
type RulesetRuleActionParametersCompressionAlgorithm = real.RulesetRuleActionParametersCompressionAlgorithm
type RulesetRuleActionParametersCustomKey = real.RulesetRuleActionParametersCustomKey
type RulesetRuleActionParametersCustomKeyCookie = real.RulesetRuleActionParametersCustomKeyCookie
type RulesetRuleActionParametersCustomKeyFields = real.RulesetRuleActionParametersCustomKeyFields
type RulesetRuleActionParametersCustomKeyHeader = real.RulesetRuleActionParametersCustomKeyHeader
type RulesetRuleActionParametersCustomKeyHost = real.RulesetRuleActionParametersCustomKeyHost
type RulesetRuleActionParametersCustomKeyList = real.RulesetRuleActionParametersCustomKeyList
type RulesetRuleActionParametersCustomKeyQuery = real.RulesetRuleActionParametersCustomKeyQuery
type RulesetRuleActionParametersCustomKeyUser = real.RulesetRuleActionParametersCustomKeyUser
type RulesetRuleActionParametersEdgeTTL = real.RulesetRuleActionParametersEdgeTTL
type RulesetRuleActionParametersFromList = real.RulesetRuleActionParametersFromList
type RulesetRuleActionParametersFromValue = real.RulesetRuleActionParametersFromValue
type RulesetRuleActionParametersHTTPHeader = real.RulesetRuleActionParametersHTTPHeader
type RulesetRuleActionParametersHTTPHeaderOperation = real.RulesetRuleActionParametersHTTPHeaderOperation

const RulesetRuleActionParametersHTTPHeaderOperationAdd = real.RulesetRuleActionParametersHTTPHeaderOperationAdd
const RulesetRuleActionParametersHTTPHeaderOperationRemove = real.RulesetRuleActionParametersHTTPHeaderOperationRemove
const RulesetRuleActionParametersHTTPHeaderOperationSet = real.RulesetRuleActionParametersHTTPHeaderOperationSet

var RulesetRuleActionParametersHTTPHeaderOperationValues = real.RulesetRuleActionParametersHTTPHeaderOperationValues

type RulesetRuleActionParametersMatchedData = real.RulesetRuleActionParametersMatchedData
type RulesetRuleActionParametersOrigin = real.RulesetRuleActionParametersOrigin
type RulesetRuleActionParametersOverrides = real.RulesetRuleActionParametersOverrides
type RulesetRuleActionParametersRules = real.RulesetRuleActionParametersRules
type RulesetRuleActionParametersServeStale = real.RulesetRuleActionParametersServeStale
type RulesetRuleActionParametersSni = real.RulesetRuleActionParametersSni
type RulesetRuleActionParametersStatusCodeRange = real.RulesetRuleActionParametersStatusCodeRange
type RulesetRuleActionParametersStatusCodeTTL = real.RulesetRuleActionParametersStatusCodeTTL
type RulesetRuleActionParametersTargetURL = real.RulesetRuleActionParametersTargetURL
type RulesetRuleActionParametersURI = real.RulesetRuleActionParametersURI
type RulesetRuleActionParametersURIPath = real.RulesetRuleActionParametersURIPath
type RulesetRuleActionParametersURIQuery = real.RulesetRuleActionParametersURIQuery

const RulesetRuleActionRedirect = real.RulesetRuleActionRedirect
const RulesetRuleActionRewrite = real.RulesetRuleActionRewrite
const RulesetRuleActionRoute = real.RulesetRuleActionRoute
const RulesetRuleActionScore = real.RulesetRuleActionScore
const RulesetRuleActionServeError = real.RulesetRuleActionServeError
const RulesetRuleActionSetCacheSettings = real.RulesetRuleActionSetCacheSettings
const RulesetRuleActionSetConfig = real.RulesetRuleActionSetConfig
const RulesetRuleActionSkip = real.RulesetRuleActionSkip

var RulesetRuleActionValues = real.RulesetRuleActionValues

type RulesetRuleExposedCredentialCheck = real.RulesetRuleExposedCredentialCheck
type RulesetRuleLogging = real.RulesetRuleLogging
type RulesetRuleRateLimit = real.RulesetRuleRateLimit

var Rune = real.Rune
var RunePtr = real.RunePtr

type SAMLAttributeConfig = real.SAMLAttributeConfig

const SSH = real.SSH

type SSL = real.SSL

const SSLFlexible = real.SSLFlexible

var SSLFromString = real.SSLFromString

const SSLFull = real.SSLFull
const SSLOff = real.SSLOff
const SSLOriginPull = real.SSLOriginPull
const SSLStrict = real.SSLStrict

type SSLValidationError = real.SSLValidationError
type SSLValidationRecord = real.SSLValidationRecord

const Saas = real.Saas

type SaasApplication = real.SaasApplication

const SafeSearch = real.SafeSearch

type SaveResponse = real.SaveResponse

const Scan = real.Scan

type Scope = real.Scope
type ScopeObject = real.ScopeObject
type SecondaryDNSPrimary = real.SecondaryDNSPrimary
type SecondaryDNSPrimaryDetailResponse = real.SecondaryDNSPrimaryDetailResponse
type SecondaryDNSPrimaryListResponse = real.SecondaryDNSPrimaryListResponse
type SecondaryDNSTSIG = real.SecondaryDNSTSIG
type SecondaryDNSTSIGDetailResponse = real.SecondaryDNSTSIGDetailResponse
type SecondaryDNSTSIGListResponse = real.SecondaryDNSTSIGListResponse
type SecondaryDNSZone = real.SecondaryDNSZone
type SecondaryDNSZoneAXFRResponse = real.SecondaryDNSZoneAXFRResponse
type SecondaryDNSZoneDetailResponse = real.SecondaryDNSZoneDetailResponse

const SecretText = real.SecretText

type SecurityLevel = real.SecurityLevel

const SecurityLevelEssentiallyOff = real.SecurityLevelEssentiallyOff

var SecurityLevelFromString = real.SecurityLevelFromString

const SecurityLevelHelp = real.SecurityLevelHelp
const SecurityLevelHigh = real.SecurityLevelHigh
const SecurityLevelLow = real.SecurityLevelLow
const SecurityLevelMedium = real.SecurityLevelMedium
const SecurityLevelOff = real.SecurityLevelOff
const SelfHosted = real.SelfHosted

type ServiceBinding = real.ServiceBinding
type ServiceBindingMap = real.ServiceBindingMap
type ServiceError = real.ServiceError
type ServiceMode = real.ServiceMode
type ServiceModeV2 = real.ServiceModeV2
type SessionAffinityAttributes = real.SessionAffinityAttributes
type SetWorkersSecretParams = real.SetWorkersSecretParams

var SilentLeveledLogger = real.SilentLeveledLogger

type SizeOptions = real.SizeOptions
type SourceConfig = real.SourceConfig
type SpectrumApplication = real.SpectrumApplication
type SpectrumApplicationConnectivity = real.SpectrumApplicationConnectivity
type SpectrumApplicationDNS = real.SpectrumApplicationDNS
type SpectrumApplicationDetailResponse = real.SpectrumApplicationDetailResponse
type SpectrumApplicationEdgeIPs = real.SpectrumApplicationEdgeIPs
type SpectrumApplicationEdgeType = real.SpectrumApplicationEdgeType
type SpectrumApplicationOriginDNS = real.SpectrumApplicationOriginDNS
type SpectrumApplicationOriginPort = real.SpectrumApplicationOriginPort
type SpectrumApplicationsDetailResponse = real.SpectrumApplicationsDetailResponse

const SpectrumConnectivityAll = real.SpectrumConnectivityAll
const SpectrumConnectivityIPv4 = real.SpectrumConnectivityIPv4
const SpectrumConnectivityIPv6 = real.SpectrumConnectivityIPv6
const SpectrumConnectivityStatic = real.SpectrumConnectivityStatic
const SpectrumEdgeTypeDynamic = real.SpectrumEdgeTypeDynamic
const SpectrumEdgeTypeStatic = real.SpectrumEdgeTypeStatic

type SplitTunnel = real.SplitTunnel
type SplitTunnelResponse = real.SplitTunnelResponse

const Standard = real.Standard

type StartWorkersTailResponse = real.StartWorkersTailResponse

const StartsWith = real.StartsWith

type StorageKey = real.StorageKey
type StreamAccessRule = real.StreamAccessRule
type StreamCreateVideoParameters = real.StreamCreateVideoParameters
type StreamInitiateTUSUploadParameters = real.StreamInitiateTUSUploadParameters
type StreamInitiateTUSUploadResponse = real.StreamInitiateTUSUploadResponse
type StreamListParameters = real.StreamListParameters
type StreamListResponse = real.StreamListResponse
type StreamParameters = real.StreamParameters
type StreamSignedURLParameters = real.StreamSignedURLParameters
type StreamSignedURLResponse = real.StreamSignedURLResponse
type StreamUploadFileParameters = real.StreamUploadFileParameters
type StreamUploadFromURLParameters = real.StreamUploadFromURLParameters
type StreamVideo = real.StreamVideo
type StreamVideoCreate = real.StreamVideoCreate
type StreamVideoCreateResponse = real.StreamVideoCreateResponse
type StreamVideoInput = real.StreamVideoInput
type StreamVideoNFTParameters = real.StreamVideoNFTParameters
type StreamVideoPlayback = real.StreamVideoPlayback
type StreamVideoResponse = real.StreamVideoResponse
type StreamVideoStatus = real.StreamVideoStatus
type StreamVideoWatermark = real.StreamVideoWatermark

var String = real.String
var StringMap = real.StringMap
var StringPtr = real.StringPtr
var StringPtrMap = real.StringPtrMap
var StringPtrSlice = real.StringPtrSlice
var StringSlice = real.StringSlice

type TUSUploadMetadata = real.TUSUploadMetadata
type TeamsAccount = real.TeamsAccount
type TeamsAccountConnectivitySettingsResponse = real.TeamsAccountConnectivitySettingsResponse
type TeamsAccountLoggingConfiguration = real.TeamsAccountLoggingConfiguration
type TeamsAccountResponse = real.TeamsAccountResponse
type TeamsAccountSettings = real.TeamsAccountSettings
type TeamsActivityLog = real.TeamsActivityLog
type TeamsAntivirus = real.TeamsAntivirus
type TeamsBISOAdminControlSettings = real.TeamsBISOAdminControlSettings
type TeamsBlockPage = real.TeamsBlockPage
type TeamsBodyScanning = real.TeamsBodyScanning
type TeamsCertificate = real.TeamsCertificate
type TeamsCertificateCreateRequest = real.TeamsCertificateCreateRequest
type TeamsCertificateResponse = real.TeamsCertificateResponse
type TeamsCertificateSetting = real.TeamsCertificateSetting
type TeamsCertificatesResponse = real.TeamsCertificatesResponse
type TeamsCheckSessionSettings = real.TeamsCheckSessionSettings
type TeamsConfigResponse = real.TeamsConfigResponse
type TeamsConfiguration = real.TeamsConfiguration
type TeamsConnectivitySettings = real.TeamsConnectivitySettings
type TeamsCustomCertificate = real.TeamsCustomCertificate

const TeamsDeepInspectionMode = real.TeamsDeepInspectionMode

type TeamsDeviceDetail = real.TeamsDeviceDetail
type TeamsDeviceListItem = real.TeamsDeviceListItem
type TeamsDeviceSettings = real.TeamsDeviceSettings
type TeamsDeviceSettingsResponse = real.TeamsDeviceSettingsResponse
type TeamsDevicesList = real.TeamsDevicesList
type TeamsDlpPayloadLogSettings = real.TeamsDlpPayloadLogSettings
type TeamsDnsResolverAddress = real.TeamsDnsResolverAddress
type TeamsDnsResolverAddressV4 = real.TeamsDnsResolverAddressV4
type TeamsDnsResolverAddressV6 = real.TeamsDnsResolverAddressV6
type TeamsDnsResolverSettings = real.TeamsDnsResolverSettings

const TeamsDnsRuleType = real.TeamsDnsRuleType

type TeamsExtendedEmailMatching = real.TeamsExtendedEmailMatching
type TeamsFIPS = real.TeamsFIPS
type TeamsFilterType = real.TeamsFilterType
type TeamsGatewayAction = real.TeamsGatewayAction
type TeamsGatewayUntrustedCertAction = real.TeamsGatewayUntrustedCertAction

const TeamsHttpRuleType = real.TeamsHttpRuleType

type TeamsInspectionMode = real.TeamsInspectionMode
type TeamsL4OverrideSettings = real.TeamsL4OverrideSettings

const TeamsL4RuleType = real.TeamsL4RuleType

type TeamsList = real.TeamsList
type TeamsListDetailResponse = real.TeamsListDetailResponse
type TeamsListItem = real.TeamsListItem
type TeamsListItemsListResponse = real.TeamsListItemsListResponse
type TeamsListListResponse = real.TeamsListListResponse
type TeamsLocation = real.TeamsLocation
type TeamsLocationDetailResponse = real.TeamsLocationDetailResponse
type TeamsLocationNetwork = real.TeamsLocationNetwork
type TeamsLocationsListResponse = real.TeamsLocationsListResponse
type TeamsLoggingSettings = real.TeamsLoggingSettings
type TeamsLoggingSettingsResponse = real.TeamsLoggingSettingsResponse
type TeamsNotificationSettings = real.TeamsNotificationSettings
type TeamsProtocolDetection = real.TeamsProtocolDetection
type TeamsProxyEndpoint = real.TeamsProxyEndpoint
type TeamsProxyEndpointDetailResponse = real.TeamsProxyEndpointDetailResponse
type TeamsProxyEndpointListResponse = real.TeamsProxyEndpointListResponse
type TeamsRule = real.TeamsRule
type TeamsRulePatchRequest = real.TeamsRulePatchRequest
type TeamsRuleResponse = real.TeamsRuleResponse
type TeamsRuleSettings = real.TeamsRuleSettings
type TeamsRuleType = real.TeamsRuleType

var TeamsRulesActionValues = real.TeamsRulesActionValues

type TeamsRulesResponse = real.TeamsRulesResponse

var TeamsRulesUntrustedCertActionValues = real.TeamsRulesUntrustedCertActionValues

const TeamsShallowInspectionMode = real.TeamsShallowInspectionMode

type TeamsTLSDecrypt = real.TeamsTLSDecrypt
type TieredCache = real.TieredCache

const TieredCacheGeneric = real.TieredCacheGeneric
const TieredCacheOff = real.TieredCacheOff
const TieredCacheSmart = real.TieredCacheSmart

type TieredCacheType = real.TieredCacheType

var Time = real.Time
var TimePtr = real.TimePtr

type TimeRange = real.TimeRange
type TotalTLS = real.TotalTLS
type TotalTLSResponse = real.TotalTLSResponse
type Tunnel = real.Tunnel
type TunnelConfiguration = real.TunnelConfiguration
type TunnelConfigurationParams = real.TunnelConfigurationParams
type TunnelConfigurationResponse = real.TunnelConfigurationResponse
type TunnelConfigurationResult = real.TunnelConfigurationResult
type TunnelConnection = real.TunnelConnection
type TunnelConnectionResponse = real.TunnelConnectionResponse
type TunnelCreateParams = real.TunnelCreateParams
type TunnelDetailResponse = real.TunnelDetailResponse
type TunnelDuration = real.TunnelDuration
type TunnelListParams = real.TunnelListParams
type TunnelRoute = real.TunnelRoute
type TunnelRoutesCreateParams = real.TunnelRoutesCreateParams
type TunnelRoutesDeleteParams = real.TunnelRoutesDeleteParams
type TunnelRoutesForIPParams = real.TunnelRoutesForIPParams
type TunnelRoutesListParams = real.TunnelRoutesListParams
type TunnelRoutesUpdateParams = real.TunnelRoutesUpdateParams
type TunnelTokenResponse = real.TunnelTokenResponse
type TunnelUpdateParams = real.TunnelUpdateParams
type TunnelVirtualNetwork = real.TunnelVirtualNetwork
type TunnelVirtualNetworkCreateParams = real.TunnelVirtualNetworkCreateParams
type TunnelVirtualNetworkUpdateParams = real.TunnelVirtualNetworkUpdateParams
type TunnelVirtualNetworksListParams = real.TunnelVirtualNetworksListParams
type TunnelsDetailResponse = real.TunnelsDetailResponse
type TurnstileWidget = real.TurnstileWidget
type TurnstileWidgetResponse = real.TurnstileWidgetResponse
type TusProtocolVersion = real.TusProtocolVersion

const TusProtocolVersion1_0_0 = real.TusProtocolVersion1_0_0

type URLNormalizationSettings = real.URLNormalizationSettings
type URLNormalizationSettingsResponse = real.URLNormalizationSettingsResponse
type URLNormalizationSettingsUpdateParams = real.URLNormalizationSettingsUpdateParams

var Uint = real.Uint
var Uint16 = real.Uint16
var Uint16Map = real.Uint16Map
var Uint16Ptr = real.Uint16Ptr
var Uint16PtrMap = real.Uint16PtrMap
var Uint16PtrSlice = real.Uint16PtrSlice
var Uint16Slice = real.Uint16Slice
var Uint32 = real.Uint32
var Uint32Map = real.Uint32Map
var Uint32Ptr = real.Uint32Ptr
var Uint32PtrMap = real.Uint32PtrMap
var Uint32PtrSlice = real.Uint32PtrSlice
var Uint32Slice = real.Uint32Slice
var Uint64 = real.Uint64
var Uint64Map = real.Uint64Map
var Uint64Ptr = real.Uint64Ptr
var Uint64PtrMap = real.Uint64PtrMap
var Uint64PtrSlice = real.Uint64PtrSlice
var Uint64Slice = real.Uint64Slice
var Uint8 = real.Uint8
var Uint8Map = real.Uint8Map
var Uint8Ptr = real.Uint8Ptr
var Uint8PtrMap = real.Uint8PtrMap
var Uint8PtrSlice = real.Uint8PtrSlice
var Uint8Slice = real.Uint8Slice
var UintMap = real.UintMap
var UintPtr = real.UintPtr
var UintPtrMap = real.UintPtrMap
var UintPtrSlice = real.UintPtrSlice
var UintSlice = real.UintSlice

const Unbound = real.Unbound

type UniversalSSLCertificatePackValidationMethodSetting = real.UniversalSSLCertificatePackValidationMethodSetting
type UniversalSSLSetting = real.UniversalSSLSetting
type UniversalSSLVerificationDetails = real.UniversalSSLVerificationDetails
type UnsafeBinding = real.UnsafeBinding

const UntrustedCertBlock = real.UntrustedCertBlock
const UntrustedCertError = real.UntrustedCertError
const UntrustedCertPassthrough = real.UntrustedCertPassthrough

type UntrustedCertSettings = real.UntrustedCertSettings
type UnvalidatedIngressRule = real.UnvalidatedIngressRule
type UpdateAPIShieldDiscoveryOperation = real.UpdateAPIShieldDiscoveryOperation
type UpdateAPIShieldDiscoveryOperationParams = real.UpdateAPIShieldDiscoveryOperationParams
type UpdateAPIShieldDiscoveryOperationsParams = real.UpdateAPIShieldDiscoveryOperationsParams
type UpdateAPIShieldOperationSchemaValidationSettings = real.UpdateAPIShieldOperationSchemaValidationSettings
type UpdateAPIShieldOperationSchemaValidationSettingsResponse = real.UpdateAPIShieldOperationSchemaValidationSettingsResponse
type UpdateAPIShieldParams = real.UpdateAPIShieldParams
type UpdateAPIShieldSchemaParams = real.UpdateAPIShieldSchemaParams
type UpdateAPIShieldSchemaValidationSettingsParams = real.UpdateAPIShieldSchemaValidationSettingsParams
type UpdateAccessApplicationParams = real.UpdateAccessApplicationParams
type UpdateAccessCustomPageParams = real.UpdateAccessCustomPageParams
type UpdateAccessGroupParams = real.UpdateAccessGroupParams
type UpdateAccessIdentityProviderParams = real.UpdateAccessIdentityProviderParams
type UpdateAccessMutualTLSCertificateParams = real.UpdateAccessMutualTLSCertificateParams
type UpdateAccessMutualTLSHostnameSettingsParams = real.UpdateAccessMutualTLSHostnameSettingsParams
type UpdateAccessOrganizationParams = real.UpdateAccessOrganizationParams
type UpdateAccessPolicyParams = real.UpdateAccessPolicyParams
type UpdateAccessServiceTokenParams = real.UpdateAccessServiceTokenParams
type UpdateAccessUserSeatParams = real.UpdateAccessUserSeatParams
type UpdateAccessUserSeatResponse = real.UpdateAccessUserSeatResponse
type UpdateAccessUsersSeatsParams = real.UpdateAccessUsersSeatsParams
type UpdateAddressMapParams = real.UpdateAddressMapParams
type UpdateAuditSSHSettingsParams = real.UpdateAuditSSHSettingsParams
type UpdateBotManagementParams = real.UpdateBotManagementParams
type UpdateCacheReserveParams = real.UpdateCacheReserveParams
type UpdateCustomNameserverZoneMetadataParams = real.UpdateCustomNameserverZoneMetadataParams
type UpdateDLPDatasetParams = real.UpdateDLPDatasetParams
type UpdateDLPDatasetResponse = real.UpdateDLPDatasetResponse
type UpdateDLPProfileParams = real.UpdateDLPProfileParams
type UpdateDNSFirewallClusterParams = real.UpdateDNSFirewallClusterParams
type UpdateDNSRecordParams = real.UpdateDNSRecordParams
type UpdateDataLocalizationRegionalHostnameParams = real.UpdateDataLocalizationRegionalHostnameParams
type UpdateDefaultDeviceSettingsPolicyParams = real.UpdateDefaultDeviceSettingsPolicyParams
type UpdateDeviceClientCertificatesParams = real.UpdateDeviceClientCertificatesParams
type UpdateDeviceDexTestParams = real.UpdateDeviceDexTestParams
type UpdateDeviceManagedNetworkParams = real.UpdateDeviceManagedNetworkParams
type UpdateDeviceSettingsPolicyParams = real.UpdateDeviceSettingsPolicyParams
type UpdateEmailRoutingRuleParameters = real.UpdateEmailRoutingRuleParameters
type UpdateEntrypointRulesetParams = real.UpdateEntrypointRulesetParams
type UpdateHostnameTLSSettingCiphersParams = real.UpdateHostnameTLSSettingCiphersParams
type UpdateHostnameTLSSettingParams = real.UpdateHostnameTLSSettingParams
type UpdateHyperdriveConfigParams = real.UpdateHyperdriveConfigParams
type UpdateImageParams = real.UpdateImageParams
type UpdateImagesVariantParams = real.UpdateImagesVariantParams
type UpdateLoadBalancerMonitorParams = real.UpdateLoadBalancerMonitorParams
type UpdateLoadBalancerParams = real.UpdateLoadBalancerParams
type UpdateLoadBalancerPoolParams = real.UpdateLoadBalancerPoolParams
type UpdateLogpushJobParams = real.UpdateLogpushJobParams
type UpdateMagicFirewallRulesetRequest = real.UpdateMagicFirewallRulesetRequest
type UpdateMagicFirewallRulesetResponse = real.UpdateMagicFirewallRulesetResponse
type UpdateMagicTransitGRETunnelResponse = real.UpdateMagicTransitGRETunnelResponse
type UpdateMagicTransitIPsecTunnelResponse = real.UpdateMagicTransitIPsecTunnelResponse
type UpdateMagicTransitStaticRouteResponse = real.UpdateMagicTransitStaticRouteResponse
type UpdateManagedHeadersParams = real.UpdateManagedHeadersParams
type UpdatePageShieldPolicyParams = real.UpdatePageShieldPolicyParams
type UpdatePageShieldSettingsParams = real.UpdatePageShieldSettingsParams
type UpdatePagesProjectParams = real.UpdatePagesProjectParams
type UpdateQueueConsumerParams = real.UpdateQueueConsumerParams
type UpdateQueueParams = real.UpdateQueueParams
type UpdateRegionalTieredCacheParams = real.UpdateRegionalTieredCacheParams
type UpdateRulesetParams = real.UpdateRulesetParams
type UpdateRulesetRequest = real.UpdateRulesetRequest
type UpdateRulesetResponse = real.UpdateRulesetResponse
type UpdateTeamsListParams = real.UpdateTeamsListParams
type UpdateTurnstileWidgetParams = real.UpdateTurnstileWidgetParams
type UpdateWaitingRoomRuleParams = real.UpdateWaitingRoomRuleParams
type UpdateWaitingRoomSettingsParams = real.UpdateWaitingRoomSettingsParams
type UpdateWebAnalyticsRuleParams = real.UpdateWebAnalyticsRuleParams
type UpdateWebAnalyticsSiteParams = real.UpdateWebAnalyticsSiteParams
type UpdateWorkerCronTriggersParams = real.UpdateWorkerCronTriggersParams
type UpdateWorkerRouteParams = real.UpdateWorkerRouteParams
type UpdateWorkersKVNamespaceParams = real.UpdateWorkersKVNamespaceParams
type UpdateWorkersScriptContentParams = real.UpdateWorkersScriptContentParams
type UpdateWorkersScriptSettingsParams = real.UpdateWorkersScriptSettingsParams
type UpdateZarazConfigParams = real.UpdateZarazConfigParams
type UpdateZarazWorkflowParams = real.UpdateZarazWorkflowParams
type UpdateZoneSettingParams = real.UpdateZoneSettingParams
type UploadDLPDatasetVersionParams = real.UploadDLPDatasetVersionParams
type UploadDLPDatasetVersionResponse = real.UploadDLPDatasetVersionResponse
type UploadImageParams = real.UploadImageParams
type UploadVideoURLWatermark = real.UploadVideoURLWatermark
type UsageModel = real.UsageModel
type User = real.User

var UserAgent = real.UserAgent

type UserAgentRule = real.UserAgentRule
type UserAgentRuleConfig = real.UserAgentRuleConfig
type UserAgentRuleListResponse = real.UserAgentRuleListResponse
type UserAgentRuleResponse = real.UserAgentRuleResponse
type UserBillingHistory = real.UserBillingHistory
type UserBillingHistoryResponse = real.UserBillingHistoryResponse
type UserBillingOptions = real.UserBillingOptions
type UserBillingProfile = real.UserBillingProfile

var UserIdentifier = real.UserIdentifier

type UserItem = real.UserItem
type UserResponse = real.UserResponse

const UserRouteLevel = real.UserRouteLevel
const UserType = real.UserType

var UsingLogger = real.UsingLogger
var UsingRateLimit = real.UsingRateLimit
var UsingRetryPolicy = real.UsingRetryPolicy

const VNC = real.VNC

type ValidateLogpushOwnershipChallengeParams = real.ValidateLogpushOwnershipChallengeParams
type ValidationData = real.ValidationData

const ValueIsIn = real.ValueIsIn
const ValueIsNotIn = real.ValueIsNotIn

type VerificationData = real.VerificationData

var Version = real.Version

type WAFGroup = real.WAFGroup
type WAFGroupResponse = real.WAFGroupResponse
type WAFGroupsResponse = real.WAFGroupsResponse
type WAFOverride = real.WAFOverride
type WAFOverrideResponse = real.WAFOverrideResponse
type WAFOverridesResponse = real.WAFOverridesResponse
type WAFPackage = real.WAFPackage
type WAFPackageOptions = real.WAFPackageOptions
type WAFPackageResponse = real.WAFPackageResponse
type WAFPackagesResponse = real.WAFPackagesResponse
type WAFRule = real.WAFRule
type WAFRuleOptions = real.WAFRuleOptions
type WAFRuleResponse = real.WAFRuleResponse
type WAFRulesResponse = real.WAFRulesResponse
type WHOIS = real.WHOIS
type WHOISParameters = real.WHOISParameters
type WHOISResponse = real.WHOISResponse
type WaitingRoom = real.WaitingRoom
type WaitingRoomDetailResponse = real.WaitingRoomDetailResponse
type WaitingRoomEvent = real.WaitingRoomEvent
type WaitingRoomEventDetailResponse = real.WaitingRoomEventDetailResponse
type WaitingRoomEventsResponse = real.WaitingRoomEventsResponse
type WaitingRoomPagePreviewCustomHTML = real.WaitingRoomPagePreviewCustomHTML
type WaitingRoomPagePreviewResponse = real.WaitingRoomPagePreviewResponse
type WaitingRoomPagePreviewURL = real.WaitingRoomPagePreviewURL
type WaitingRoomRoute = real.WaitingRoomRoute
type WaitingRoomRule = real.WaitingRoomRule
type WaitingRoomRulesResponse = real.WaitingRoomRulesResponse
type WaitingRoomSettings = real.WaitingRoomSettings
type WaitingRoomSettingsResponse = real.WaitingRoomSettingsResponse
type WaitingRoomStatus = real.WaitingRoomStatus
type WaitingRoomStatusResponse = real.WaitingRoomStatusResponse
type WaitingRoomsResponse = real.WaitingRoomsResponse

const Warp = real.Warp

type WarpRoutingConfig = real.WarpRoutingConfig
type Web3Hostname = real.Web3Hostname
type Web3HostnameCreateParameters = real.Web3HostnameCreateParameters
type Web3HostnameDeleteResponse = real.Web3HostnameDeleteResponse
type Web3HostnameDeleteResult = real.Web3HostnameDeleteResult
type Web3HostnameDetailsParameters = real.Web3HostnameDetailsParameters
type Web3HostnameListParameters = real.Web3HostnameListParameters
type Web3HostnameListResponse = real.Web3HostnameListResponse
type Web3HostnameResponse = real.Web3HostnameResponse
type Web3HostnameUpdateParameters = real.Web3HostnameUpdateParameters
type WebAnalyticsIDResponse = real.WebAnalyticsIDResponse
type WebAnalyticsRule = real.WebAnalyticsRule
type WebAnalyticsRuleResponse = real.WebAnalyticsRuleResponse
type WebAnalyticsRulesResponse = real.WebAnalyticsRulesResponse
type WebAnalyticsRuleset = real.WebAnalyticsRuleset
type WebAnalyticsRulesetRules = real.WebAnalyticsRulesetRules
type WebAnalyticsSite = real.WebAnalyticsSite
type WebAnalyticsSiteResponse = real.WebAnalyticsSiteResponse
type WebAnalyticsSiteTagResponse = real.WebAnalyticsSiteTagResponse
type WebAnalyticsSitesResponse = real.WebAnalyticsSitesResponse

var WithPagination = real.WithPagination
var WithZoneFilters = real.WithZoneFilters

type WorkerAnalyticsEngineBinding = real.WorkerAnalyticsEngineBinding

const WorkerAnalyticsEngineBindingType = real.WorkerAnalyticsEngineBindingType

type WorkerBinding = real.WorkerBinding
type WorkerBindingListItem = real.WorkerBindingListItem
type WorkerBindingListResponse = real.WorkerBindingListResponse
type WorkerBindingType = real.WorkerBindingType
type WorkerCronTrigger = real.WorkerCronTrigger
type WorkerCronTriggerResponse = real.WorkerCronTriggerResponse
type WorkerCronTriggerSchedules = real.WorkerCronTriggerSchedules
type WorkerD1DatabaseBinding = real.WorkerD1DatabaseBinding

const WorkerD1DataseBindingType = real.WorkerD1DataseBindingType

type WorkerDurableObjectBinding = real.WorkerDurableObjectBinding

const WorkerDurableObjectBindingType = real.WorkerDurableObjectBindingType

type WorkerHyperdriveBinding = real.WorkerHyperdriveBinding

const WorkerHyperdriveBindingType = real.WorkerHyperdriveBindingType

type WorkerInheritBinding = real.WorkerInheritBinding

const WorkerInheritBindingType = real.WorkerInheritBindingType

type WorkerKvNamespaceBinding = real.WorkerKvNamespaceBinding

const WorkerKvNamespaceBindingType = real.WorkerKvNamespaceBindingType

type WorkerListResponse = real.WorkerListResponse
type WorkerMetaData = real.WorkerMetaData
type WorkerPlainTextBinding = real.WorkerPlainTextBinding

const WorkerPlainTextBindingType = real.WorkerPlainTextBindingType

type WorkerQueueBinding = real.WorkerQueueBinding

const WorkerQueueBindingType = real.WorkerQueueBindingType

type WorkerR2BucketBinding = real.WorkerR2BucketBinding

const WorkerR2BucketBindingType = real.WorkerR2BucketBindingType

type WorkerReference = real.WorkerReference
type WorkerRequestParams = real.WorkerRequestParams
type WorkerRoute = real.WorkerRoute
type WorkerRouteResponse = real.WorkerRouteResponse
type WorkerRoutesResponse = real.WorkerRoutesResponse
type WorkerScript = real.WorkerScript
type WorkerScriptParams = real.WorkerScriptParams
type WorkerScriptResponse = real.WorkerScriptResponse
type WorkerScriptSettingsResponse = real.WorkerScriptSettingsResponse
type WorkerSecretTextBinding = real.WorkerSecretTextBinding

const WorkerSecretTextBindingType = real.WorkerSecretTextBindingType

type WorkerServiceBinding = real.WorkerServiceBinding

const WorkerServiceBindingType = real.WorkerServiceBindingType

type WorkerWebAssemblyBinding = real.WorkerWebAssemblyBinding

const WorkerWebAssemblyBindingType = real.WorkerWebAssemblyBindingType

type WorkersAccountSettings = real.WorkersAccountSettings
type WorkersAccountSettingsParameters = real.WorkersAccountSettingsParameters
type WorkersAccountSettingsResponse = real.WorkersAccountSettingsResponse
type WorkersDomain = real.WorkersDomain
type WorkersDomainListResponse = real.WorkersDomainListResponse
type WorkersDomainResponse = real.WorkersDomainResponse
type WorkersForPlatformsDispatchNamespace = real.WorkersForPlatformsDispatchNamespace
type WorkersKVNamespace = real.WorkersKVNamespace
type WorkersKVNamespaceResponse = real.WorkersKVNamespaceResponse
type WorkersKVPair = real.WorkersKVPair
type WorkersListSecretsResponse = real.WorkersListSecretsResponse
type WorkersPutSecretRequest = real.WorkersPutSecretRequest
type WorkersPutSecretResponse = real.WorkersPutSecretResponse
type WorkersSecret = real.WorkersSecret
type WorkersSubdomain = real.WorkersSubdomain
type WorkersSubdomainResponse = real.WorkersSubdomainResponse
type WorkersTail = real.WorkersTail
type WorkersTailConsumer = real.WorkersTailConsumer
type WriteWorkersKVEntriesParams = real.WriteWorkersKVEntriesParams
type WriteWorkersKVEntryParams = real.WriteWorkersKVEntryParams

const YTRestricted = real.YTRestricted

type ZarazAction = real.ZarazAction
type ZarazButtonTextTranslations = real.ZarazButtonTextTranslations

const ZarazCSS = real.ZarazCSS
const ZarazClickListener = real.ZarazClickListener
const ZarazClientEval = real.ZarazClientEval

type ZarazConfig = real.ZarazConfig
type ZarazConfigHistoryListResponse = real.ZarazConfigHistoryListResponse
type ZarazConfigResponse = real.ZarazConfigResponse
type ZarazConfigSettings = real.ZarazConfigSettings
type ZarazConsent = real.ZarazConsent

const ZarazElementVisibility = real.ZarazElementVisibility
const ZarazFormSubmission = real.ZarazFormSubmission

type ZarazHistoryRecord = real.ZarazHistoryRecord
type ZarazLoadRuleOp = real.ZarazLoadRuleOp
type ZarazNeoEvent = real.ZarazNeoEvent

const ZarazPageload = real.ZarazPageload

type ZarazPublishResponse = real.ZarazPublishResponse
type ZarazPurpose = real.ZarazPurpose
type ZarazPurposeWithTranslations = real.ZarazPurposeWithTranslations
type ZarazRuleSettings = real.ZarazRuleSettings
type ZarazRuleType = real.ZarazRuleType

const ZarazScrollDepth = real.ZarazScrollDepth

type ZarazSelectorType = real.ZarazSelectorType

const ZarazTimer = real.ZarazTimer

type ZarazTool = real.ZarazTool

const ZarazToolComponent = real.ZarazToolComponent
const ZarazToolCustomMc = real.ZarazToolCustomMc
const ZarazToolLibrary = real.ZarazToolLibrary

type ZarazToolType = real.ZarazToolType
type ZarazTrigger = real.ZarazTrigger
type ZarazTriggerRule = real.ZarazTriggerRule
type ZarazTriggerSystem = real.ZarazTriggerSystem

const ZarazVarSecret = real.ZarazVarSecret
const ZarazVarString = real.ZarazVarString
const ZarazVarWorker = real.ZarazVarWorker

type ZarazVariable = real.ZarazVariable

const ZarazVariableMatch = real.ZarazVariableMatch

type ZarazVariableType = real.ZarazVariableType
type ZarazWorker = real.ZarazWorker
type ZarazWorkflowResponse = real.ZarazWorkflowResponse

const ZarazXPath = real.ZarazXPath

type Zone = real.Zone
type ZoneAnalytics = real.ZoneAnalytics
type ZoneAnalyticsColocation = real.ZoneAnalyticsColocation
type ZoneAnalyticsData = real.ZoneAnalyticsData
type ZoneAnalyticsOptions = real.ZoneAnalyticsOptions
type ZoneCacheVariants = real.ZoneCacheVariants
type ZoneCacheVariantsValues = real.ZoneCacheVariantsValues
type ZoneCustomSSL = real.ZoneCustomSSL
type ZoneCustomSSLGeoRestrictions = real.ZoneCustomSSLGeoRestrictions
type ZoneCustomSSLOptions = real.ZoneCustomSSLOptions
type ZoneCustomSSLPriority = real.ZoneCustomSSLPriority
type ZoneDNSSEC = real.ZoneDNSSEC
type ZoneDNSSECDeleteResponse = real.ZoneDNSSECDeleteResponse
type ZoneDNSSECResponse = real.ZoneDNSSECResponse
type ZoneDNSSECUpdateOptions = real.ZoneDNSSECUpdateOptions
type ZoneHold = real.ZoneHold
type ZoneHoldResponse = real.ZoneHoldResponse
type ZoneID = real.ZoneID
type ZoneIDResponse = real.ZoneIDResponse

var ZoneIdentifier = real.ZoneIdentifier

type ZoneLockdown = real.ZoneLockdown
type ZoneLockdownConfig = real.ZoneLockdownConfig
type ZoneLockdownCreateParams = real.ZoneLockdownCreateParams
type ZoneLockdownListResponse = real.ZoneLockdownListResponse
type ZoneLockdownResponse = real.ZoneLockdownResponse
type ZoneLockdownUpdateParams = real.ZoneLockdownUpdateParams
type ZoneMeta = real.ZoneMeta
type ZoneOptions = real.ZoneOptions
type ZonePlan = real.ZonePlan
type ZonePlanCommon = real.ZonePlanCommon
type ZoneRatePlan = real.ZoneRatePlan
type ZoneRatePlanResponse = real.ZoneRatePlanResponse
type ZoneResponse = real.ZoneResponse

const ZoneRouteLevel = real.ZoneRouteLevel
const ZoneRouteRoot = real.ZoneRouteRoot

type ZoneSSLSetting = real.ZoneSSLSetting
type ZoneSSLSettingResponse = real.ZoneSSLSettingResponse
type ZoneSetting = real.ZoneSetting
type ZoneSettingResponse = real.ZoneSettingResponse
type ZoneSettingSingleResponse = real.ZoneSettingSingleResponse

const ZoneType = real.ZoneType

type ZonesResponse = real.ZonesResponse
