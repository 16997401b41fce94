// Generated by tools/gen.py from spec/enums.txt. Do not edit.
#![allow(clippy::all, deprecated, unused_imports)]
use bytes::{Buf, BytesMut};
use open_dis_rust::common::enums::*;
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
pub struct EnumRow { pub name: &'static str, pub bits: u32, pub default: u64, pub codes: &'static [(&'static str, u64)],
  pub actual: fn() -> Vec<u64>, pub decode: fn(&mut dyn Buf) -> (u64, String), pub dflt: Option<fn() -> u64>,
  pub field: Option<(fn(usize, &mut BytesMut), fn(&mut dyn Buf) -> u64, fn(usize) -> usize)>,
  pub pairs: fn() -> (u64, Option<String>), pub scan: Option<crate::checks::tables::Scan> }
static ALL_FORCEID: &[ForceId] = &[ForceId::Other, ForceId::Friendly, ForceId::Opposing, ForceId::Neutral, ForceId::Friendly2, ForceId::Opposing2, ForceId::Neutral2, ForceId::Friendly3, ForceId::Opposing3, ForceId::Neutral3, ForceId::Friendly4, ForceId::Opposing4, ForceId::Neutral4, ForceId::Friendly5, ForceId::Opposing5, ForceId::Neutral5, ForceId::Friendly6, ForceId::Opposing6, ForceId::Neutral6, ForceId::Friendly7, ForceId::Opposing7, ForceId::Neutral7, ForceId::Friendly8, ForceId::Opposing8, ForceId::Neutral8, ForceId::Friendly9, ForceId::Opposing9, ForceId::Neutral9, ForceId::Friendly10, ForceId::Opposing10, ForceId::Neutral10];
static ALL_DEADRECKONINGALGORITHM: &[DeadReckoningAlgorithm] = &[DeadReckoningAlgorithm::Other, DeadReckoningAlgorithm::StaticNonmovingEntity, DeadReckoningAlgorithm::DRMConstantVelocityLowAccelerationLinearMotionEntity, DeadReckoningAlgorithm::DRMConstantVelocityLowAccelerationLinearMotionEntitywithExtrapolationofOrientation, DeadReckoningAlgorithm::DRMHighSpeedorManeuveringEntitywithExtrapolationofOrientation, DeadReckoningAlgorithm::DRMHighSpeedorManeuveringEntity, DeadReckoningAlgorithm::DRMSimilartoFPWexceptinBodyCoordinates, DeadReckoningAlgorithm::DRMSimilartoRPWexceptinBodyCoordinates, DeadReckoningAlgorithm::DRMSimilartoRVWexceptinBodyCoordinates, DeadReckoningAlgorithm::DRMSimilartoFVWexceptinBodyCoordinates];
static ALL_ENTITYCAPABILITIES: &[EntityCapabilities] = &[EntityCapabilities::LandPlatformEntityCapabilities, EntityCapabilities::AirPlatformEntityCapabilities, EntityCapabilities::SurfacePlatformEntityCapabilities, EntityCapabilities::SubsurfacePlatformEntityCapabilities, EntityCapabilities::SpacePlatformEntityCapabilities, EntityCapabilities::MunitionEntityCapabilities, EntityCapabilities::LifeFormsEntityCapabilities, EntityCapabilities::EnvironmentalEntityCapabilities, EntityCapabilities::CulturalFeatureEntityCapabilities, EntityCapabilities::SupplyEntityCapabilities, EntityCapabilities::RadioEntityCapabilities, EntityCapabilities::ExpendableEntityCapabilities, EntityCapabilities::SensorEmitterEntityCapabilities];
static ALL_DETONATIONRESULT: &[DetonationResult] = &[DetonationResult::Other, DetonationResult::EntityImpact, DetonationResult::EntityProximateDetonation, DetonationResult::GroundImpact, DetonationResult::GroundProximateDetonation, DetonationResult::Detonation, DetonationResult::NoneorNoDetonation, DetonationResult::HEhitsmall, DetonationResult::HEhitmedium, DetonationResult::HEhitlarge, DetonationResult::Armorpiercinghit, DetonationResult::Dirtblastsmall, DetonationResult::Dirtblastmedium, DetonationResult::Dirtblastlarge, DetonationResult::Waterblastsmall, DetonationResult::Waterblastmedium, DetonationResult::Waterblastlarge, DetonationResult::Airhit, DetonationResult::Buildinghitsmall, DetonationResult::Buildinghitmedium, DetonationResult::Buildinghitlarge, DetonationResult::Mineclearinglinecharge, DetonationResult::Environmentobjectimpact, DetonationResult::Environmentobjectproximatedetonation, DetonationResult::WaterImpact, DetonationResult::AirBurst, DetonationResult::Killwithfragmenttype1, DetonationResult::Killwithfragmenttype2, DetonationResult::Killwithfragmenttype3, DetonationResult::Killwithfragmenttype1afterflyoutfailure, DetonationResult::Killwithfragmenttype2afterflyoutfailure, DetonationResult::Missduetoflyoutfailure, DetonationResult::Missduetoendgamefailure, DetonationResult::Missduetoflyoutandendgamefailure];
static ALL_SERVICEREQUESTSERVICETYPEREQUESTED: &[ServiceRequestServiceTypeRequested] = &[ServiceRequestServiceTypeRequested::Other, ServiceRequestServiceTypeRequested::Resupply, ServiceRequestServiceTypeRequested::Repair, ServiceRequestServiceTypeRequested::AerialRefuelingHighFidelity, ServiceRequestServiceTypeRequested::AerialRefuelingLowFidelity];
static ALL_REPAIRCOMPLETEREPAIR: &[RepairCompleteRepair] = &[RepairCompleteRepair::NoRepairsPerformed, RepairCompleteRepair::AllRequestedrepairSperformed, RepairCompleteRepair::MotorEngine, RepairCompleteRepair::Starter, RepairCompleteRepair::Alternator, RepairCompleteRepair::Generator, RepairCompleteRepair::Battery, RepairCompleteRepair::EngineCoolantLeak, RepairCompleteRepair::FuelFilter, RepairCompleteRepair::TransmissionOilLeak, RepairCompleteRepair::EngineOilLeak, RepairCompleteRepair::Pumps, RepairCompleteRepair::DriveTrainFilters, RepairCompleteRepair::Transmission, RepairCompleteRepair::Brakes, RepairCompleteRepair::SuspensionSystem, RepairCompleteRepair::OilFilter, RepairCompleteRepair::Hull, RepairCompleteRepair::Airframe, RepairCompleteRepair::TruckBody, RepairCompleteRepair::TankBody, RepairCompleteRepair::TrailerBody, RepairCompleteRepair::Turret, RepairCompleteRepair::Propeller, RepairCompleteRepair::EnvironmentFilters, RepairCompleteRepair::Wheels, RepairCompleteRepair::Tire, RepairCompleteRepair::Track, RepairCompleteRepair::GunElevationDrive, RepairCompleteRepair::GunStabilizationSystem, RepairCompleteRepair::GunnersPrimarySight, RepairCompleteRepair::CommandersExtensionToTheGPS, RepairCompleteRepair::LoadingMechanism, RepairCompleteRepair::GunnersAuxiliarySight, RepairCompleteRepair::GunnersControlPanel, RepairCompleteRepair::GunnersControlAssemblyHandle, RepairCompleteRepair::CommandersControlHandlesAssembly, RepairCompleteRepair::CommandersWeaponStation, RepairCompleteRepair::CommandersIndependentThermalViewer, RepairCompleteRepair::GeneralWeapons, RepairCompleteRepair::FuelTransferPump, RepairCompleteRepair::FuelLines, RepairCompleteRepair::Gauges, RepairCompleteRepair::GeneralFuelSystem, RepairCompleteRepair::ElectronicWarfareSystems, RepairCompleteRepair::DetectionSystems, RepairCompleteRepair::DetectionSystemsRadioFrequency, RepairCompleteRepair::DetectionSystemsMicrowave, RepairCompleteRepair::DetectionSystemsInfrared, RepairCompleteRepair::DetectionSystemsLaser, RepairCompleteRepair::RangeFinders, RepairCompleteRepair::RangeOnlyrAdar, RepairCompleteRepair::LaserRangeFinder, RepairCompleteRepair::ElectronicSystems, RepairCompleteRepair::ElectronicsSystemsRadioFrequency, RepairCompleteRepair::ElectronicsSystemsMicrowave, RepairCompleteRepair::ElectronicsSystemsInfrared, RepairCompleteRepair::ElectronicsSystemsLaser, RepairCompleteRepair::Radios, RepairCompleteRepair::CommunicationSystems, RepairCompleteRepair::Intercoms, RepairCompleteRepair::Encoders, RepairCompleteRepair::EncryptionDevices, RepairCompleteRepair::Decoders, RepairCompleteRepair::DecryptionDevices, RepairCompleteRepair::Computers, RepairCompleteRepair::NavigationAndControlSystems, RepairCompleteRepair::FireControlSystems, RepairCompleteRepair::AirSupply, RepairCompleteRepair::LifeSupportSystemsFilters, RepairCompleteRepair::WaterSupply, RepairCompleteRepair::RefrigerationSystem, RepairCompleteRepair::ChemicalBiologicalAndRadiologicalProtection, RepairCompleteRepair::WaterWashdownSystems, RepairCompleteRepair::DecontaminationSystems, RepairCompleteRepair::Watersupply, RepairCompleteRepair::Coolingsystem, RepairCompleteRepair::Winches, RepairCompleteRepair::Catapults, RepairCompleteRepair::Cranes, RepairCompleteRepair::Launchers, RepairCompleteRepair::Lifeboats, RepairCompleteRepair::Landingcraft, RepairCompleteRepair::Ejectionseats];
static ALL_REPAIRRESPONSEREPAIRRESULT: &[RepairResponseRepairResult] = &[RepairResponseRepairResult::Other, RepairResponseRepairResult::RepairEnded, RepairResponseRepairResult::InvalidRepair, RepairResponseRepairResult::RepairInterrupted, RepairResponseRepairResult::ServiceCanceledByTheSupplier];
static ALL_VARIABLERECORDTYPES: &[VariableRecordTypes] = &[VariableRecordTypes::EntityIDList, VariableRecordTypes::DDCPJoinTransactionJoinRequestMessage, VariableRecordTypes::DDCPSetPlaybackWindowTransactionSetPlaybackWindowRequestMessage, VariableRecordTypes::DDCPLoadMissionRecordingTransactionLoadMissionRecordingRequestMessage, VariableRecordTypes::DDCPCueTransactionCueRequestMessage, VariableRecordTypes::DDCPPlayTransactionPlayRequestMessage, VariableRecordTypes::DDCPStopTransactionStopRequestMessage, VariableRecordTypes::DDCPPauseTransactionPauseRequestMessage, VariableRecordTypes::DDCPEndTransactionEndRequestMessage, VariableRecordTypes::DDCPJoinResponseMessage, VariableRecordTypes::DDCPRequestReceiptMessage, VariableRecordTypes::DDCPPlaybackWindowConfirmedMessage, VariableRecordTypes::DDCPMissionRecordingLoadedMessage, VariableRecordTypes::DDCPCueConfirmedMessage, VariableRecordTypes::DDCPTimetoCompleteMessage, VariableRecordTypes::DDCPPlayCommencedMessage, VariableRecordTypes::DDCPStopConfirmedMessage, VariableRecordTypes::DDCPPauseConfirmedMessage, VariableRecordTypes::DDCPEndResponseMessage, VariableRecordTypes::DDCPMasterAnnounceMessage, VariableRecordTypes::DDCPDeviceAnnounceMessage, VariableRecordTypes::DDCPDeviceExitMessage, VariableRecordTypes::DDCPDeviceHeartbeatMessage, VariableRecordTypes::DDCPMasterTimeSyncMessage, VariableRecordTypes::DDCPErrorMessage, VariableRecordTypes::DDCPMasterStopSyncMessage, VariableRecordTypes::DDCPMasterTransitionMessage, VariableRecordTypes::MissionTime, VariableRecordTypes::HighFidelityHAVEQUICKSATURNRadio, VariableRecordTypes::BlankingSectorattributerecord, VariableRecordTypes::AngleDeceptionattributerecord, VariableRecordTypes::FalseTargetsattributerecord, VariableRecordTypes::DEPrecisionAimpointrecord, VariableRecordTypes::DEAreaAimpointrecord, VariableRecordTypes::DirectedEnergyDamageDescriptionrecord, VariableRecordTypes::CryptoControl, VariableRecordTypes::Mode5STransponderLocation, VariableRecordTypes::Mode5STransponderLocationError, VariableRecordTypes::SquitterAirbornePositionReport, VariableRecordTypes::SquitterAirborneVelocityReport, VariableRecordTypes::SquitterSurfacePositionReport, VariableRecordTypes::SquitterIdentificationReport, VariableRecordTypes::GICB, VariableRecordTypes::SquitterEventDrivenReport, VariableRecordTypes::AntennaLocation, VariableRecordTypes::BasicInteractive, VariableRecordTypes::InteractiveMode4Reply, VariableRecordTypes::InteractiveMode5Reply, VariableRecordTypes::InteractiveBasicMode5, VariableRecordTypes::InteractiveBasicModeS, VariableRecordTypes::IOEffect, VariableRecordTypes::IOCommunicationsNode, VariableRecordTypes::Identification1, VariableRecordTypes::TrainerInitialConditionsFilename, VariableRecordTypes::Increment3_1MissionDataLoadName, VariableRecordTypes::Increment2MissionDataLoadName, VariableRecordTypes::SetMarkpointCommand, VariableRecordTypes::MarkpointID, VariableRecordTypes::ReactionLevel, VariableRecordTypes::WeaponReload, VariableRecordTypes::CESEntitySetClearStatus, VariableRecordTypes::ActivateEntity, VariableRecordTypes::DisengageReengage1, VariableRecordTypes::FuelFreeze, VariableRecordTypes::FireLaunchDispense, VariableRecordTypes::TargetAssignment, VariableRecordTypes::CICEnable, VariableRecordTypes::ShootInhibit, VariableRecordTypes::Posture, VariableRecordTypes::JammerState, VariableRecordTypes::JammerType, VariableRecordTypes::DynamicTargeting, VariableRecordTypes::ManualJammingOnOverride, VariableRecordTypes::SOJAxis, VariableRecordTypes::EmitterOverride1, VariableRecordTypes::Shields1, VariableRecordTypes::CrashOverride, VariableRecordTypes::StopBuzzer, VariableRecordTypes::TargetLasingOnOff, VariableRecordTypes::TargetLasingLaserCode, VariableRecordTypes::PowerPlant, VariableRecordTypes::TacticalLightingOnOffControlLightControl, VariableRecordTypes::TacticalLightingBlinkerControlBlinkerValue, VariableRecordTypes::TacticalLightingOnOffControlLightControlType, VariableRecordTypes::ParkVehicle, VariableRecordTypes::SignalingOnOff, VariableRecordTypes::SignalingDevice, VariableRecordTypes::OwnshipID, VariableRecordTypes::StateChange, VariableRecordTypes::EntityType1, VariableRecordTypes::Concatenated, VariableRecordTypes::Kind, VariableRecordTypes::Domain, VariableRecordTypes::Country, VariableRecordTypes::Category, VariableRecordTypes::Subcategory, VariableRecordTypes::Specific, VariableRecordTypes::Extra, VariableRecordTypes::ForceID1, VariableRecordTypes::ForceID2, VariableRecordTypes::Description, VariableRecordTypes::TankerBoomControl, VariableRecordTypes::AirportLights, VariableRecordTypes::WeatherPost, VariableRecordTypes::LocalizerandGlideSlope, VariableRecordTypes::TACANNavAids, VariableRecordTypes::AlternativeEntityType1, VariableRecordTypes::Kind2, VariableRecordTypes::Domain2, VariableRecordTypes::Country2, VariableRecordTypes::Category2, VariableRecordTypes::Subcategory2, VariableRecordTypes::Specific2, VariableRecordTypes::Extra2, VariableRecordTypes::Description2, VariableRecordTypes::EntityMarking, VariableRecordTypes::EntityMarkingCharacters, VariableRecordTypes::CrewID, VariableRecordTypes::TaskOrganization, VariableRecordTypes::RegimentName, VariableRecordTypes::BattalionName, VariableRecordTypes::CompanyName, VariableRecordTypes::PlatoonName, VariableRecordTypes::SquadName, VariableRecordTypes::TeamName, VariableRecordTypes::BumperNumber, VariableRecordTypes::VehicleNumber, VariableRecordTypes::UnitNumber, VariableRecordTypes::DISIdentity, VariableRecordTypes::DISSiteID, VariableRecordTypes::DISHostID, VariableRecordTypes::DISEntityID, VariableRecordTypes::MountIntent, VariableRecordTypes::TetherUnthetherCommandID, VariableRecordTypes::TeleportEntityDataRecord, VariableRecordTypes::DISAggregateID, VariableRecordTypes::OwnershipStatus, VariableRecordTypes::Reconstitute, VariableRecordTypes::Loads, VariableRecordTypes::CrewMembers, VariableRecordTypes::CrewMemberID, VariableRecordTypes::Health, VariableRecordTypes::JobAssignment, VariableRecordTypes::Fuel, VariableRecordTypes::Quantity1, VariableRecordTypes::Quantity2, VariableRecordTypes::Ammunition, VariableRecordTypes::_120mmHEATquantity, VariableRecordTypes::_120mmSABOTquantity, VariableRecordTypes::_12_7mmM8quantity, VariableRecordTypes::_12_7mmM20quantity, VariableRecordTypes::_7_62mmM62quantity, VariableRecordTypes::M250UKL8A1quantity, VariableRecordTypes::M250UKL8A3quantity, VariableRecordTypes::_7_62mmM80quantity, VariableRecordTypes::_12_7mmquantity, VariableRecordTypes::_7_62mmquantity, VariableRecordTypes::Minesquantity, VariableRecordTypes::Type, VariableRecordTypes::Kind3, VariableRecordTypes::Domain3, VariableRecordTypes::Country3, VariableRecordTypes::Category3, VariableRecordTypes::Subcategory3, VariableRecordTypes::Extra3, VariableRecordTypes::Description3, VariableRecordTypes::Cargo, VariableRecordTypes::VehicleMass, VariableRecordTypes::SupplyQuantity, VariableRecordTypes::Armament, VariableRecordTypes::Status, VariableRecordTypes::Activateentity, VariableRecordTypes::SubscriptionState, VariableRecordTypes::Roundtriptimedelay, VariableRecordTypes::TADILJmessagecountLabel0, VariableRecordTypes::TADILJmessagecountLabel1, VariableRecordTypes::TADILJmessagecountLabel2, VariableRecordTypes::TADILJmessagecountLabel3, VariableRecordTypes::TADILJmessagecountLabel4, VariableRecordTypes::TADILJmessagecountLabel5, VariableRecordTypes::TADILJmessagecountLabel6, VariableRecordTypes::TADILJmessagecountLabel7, VariableRecordTypes::TADILJmessagecountLabel8, VariableRecordTypes::TADILJmessagecountLabel9, VariableRecordTypes::TADILJmessagecountLabel10, VariableRecordTypes::TADILJmessagecountLabel11, VariableRecordTypes::TADILJmessagecountLabel12, VariableRecordTypes::TADILJmessagecountLabel13, VariableRecordTypes::TADILJmessagecountLabel14, VariableRecordTypes::TADILJmessagecountLabel15, VariableRecordTypes::TADILJmessagecountLabel16, VariableRecordTypes::TADILJmessagecountLabel17, VariableRecordTypes::TADILJmessagecountLabel18, VariableRecordTypes::TADILJmessagecountLabel19, VariableRecordTypes::TADILJmessagecountLabel20, VariableRecordTypes::TADILJmessagecountLabel21, VariableRecordTypes::TADILJmessagecountLabel22, VariableRecordTypes::TADILJmessagecountLabel23, VariableRecordTypes::TADILJmessagecountLabel24, VariableRecordTypes::TADILJmessagecountLabel25, VariableRecordTypes::TADILJmessagecountLabel26, VariableRecordTypes::TADILJmessagecountLabel27, VariableRecordTypes::TADILJmessagecountLabel28, VariableRecordTypes::TADILJmessagecountLabel29, VariableRecordTypes::TADILJmessagecountLabel30, VariableRecordTypes::TADILJmessagecountLabel31, VariableRecordTypes::Position, VariableRecordTypes::Routetype, VariableRecordTypes::MilGrid10, VariableRecordTypes::GeocentricCoordinates, VariableRecordTypes::X, VariableRecordTypes::Y, VariableRecordTypes::Z, VariableRecordTypes::Latitude1, VariableRecordTypes::Longitude1, VariableRecordTypes::LineofSight, VariableRecordTypes::X1, VariableRecordTypes::Y1, VariableRecordTypes::Z1, VariableRecordTypes::Altitude2, VariableRecordTypes::DestinationLatitude, VariableRecordTypes::DestinationLongitude, VariableRecordTypes::DestinationAltitude, VariableRecordTypes::Orientation, VariableRecordTypes::HullHeadingAngle, VariableRecordTypes::HullPitchAngle, VariableRecordTypes::RollAngle, VariableRecordTypes::X2, VariableRecordTypes::Y2, VariableRecordTypes::Z2, VariableRecordTypes::Appearance, VariableRecordTypes::AmbientLighting, VariableRecordTypes::Lights1, VariableRecordTypes::PaintScheme, VariableRecordTypes::Smoke, VariableRecordTypes::TrailingEffects, VariableRecordTypes::Flaming, VariableRecordTypes::Marking, VariableRecordTypes::MinePlowsAttached, VariableRecordTypes::MineRollersAttached, VariableRecordTypes::TankTurretAzimuth, VariableRecordTypes::FailuresandMalfunctions, VariableRecordTypes::Age, VariableRecordTypes::Kilometers, VariableRecordTypes::Damage, VariableRecordTypes::Cause, VariableRecordTypes::MobilityKill1, VariableRecordTypes::FirePowerKill, VariableRecordTypes::PersonnelCasualties, VariableRecordTypes::Velocity, VariableRecordTypes::Xvelocity, VariableRecordTypes::Yvelocity, VariableRecordTypes::Zvelocity, VariableRecordTypes::Speed1, VariableRecordTypes::Acceleration, VariableRecordTypes::Xacceleration, VariableRecordTypes::Yacceleration, VariableRecordTypes::Zacceleration, VariableRecordTypes::EngineStatus, VariableRecordTypes::PrimaryTargetLine, VariableRecordTypes::Exercise, VariableRecordTypes::ExerciseState, VariableRecordTypes::RestartRefresh, VariableRecordTypes::AFATDSFileName, VariableRecordTypes::TerrainDatabase, VariableRecordTypes::Missions, VariableRecordTypes::MissionID, VariableRecordTypes::MissionType, VariableRecordTypes::MissionRequestTimeStamp, VariableRecordTypes::ExerciseDescription, VariableRecordTypes::Name, VariableRecordTypes::Entities, VariableRecordTypes::Version, VariableRecordTypes::GuiseMode, VariableRecordTypes::SimulationApplicationActiveStatus, VariableRecordTypes::SimulationApplicationRoleRecord, VariableRecordTypes::SimulationApplicationState, VariableRecordTypes::VisualOutputMode, VariableRecordTypes::SimulationManagerRole, VariableRecordTypes::SimulationManagerSiteID, VariableRecordTypes::SimulationManagerApplicID, VariableRecordTypes::SimulationManagerEntityID, VariableRecordTypes::SimulationManagerActiveStatus, VariableRecordTypes::AfterActiveReviewRole, VariableRecordTypes::AfterActiveReviewSiteID, VariableRecordTypes::AfterActiveApplicID, VariableRecordTypes::AfterActiveReviewEntityID, VariableRecordTypes::AfterActiveReviewActiveStatus, VariableRecordTypes::ExerciseLoggerRole, VariableRecordTypes::ExerciseLoggerSiteID, VariableRecordTypes::ExerciseLoggerApplicID, VariableRecordTypes::ExerciseEntityID, VariableRecordTypes::ExerciseLoggerActiveStatus, VariableRecordTypes::SyntheticEnvironmentManagerRole, VariableRecordTypes::SyntheticEnvironmentManagerSiteID, VariableRecordTypes::SyntheticEnvironmentManagerApplicID, VariableRecordTypes::SyntheticEnvironmentManagerEntityID, VariableRecordTypes::SyntheticEnvironmentManagerActiveStatus, VariableRecordTypes::SIMNETDISTranslatorRole, VariableRecordTypes::SIMNETDISTranslatorSiteID, VariableRecordTypes::SIMNETDISTranslatorApplicID, VariableRecordTypes::SIMNETDISTranslatorEntityID, VariableRecordTypes::SIMNETDISTranslatorActiveStatus, VariableRecordTypes::ApplicationRate, VariableRecordTypes::ApplicationTime, VariableRecordTypes::ApplicationTimestep, VariableRecordTypes::FeedbackTime, VariableRecordTypes::SimulationRate, VariableRecordTypes::SimulationTime, VariableRecordTypes::SimulationTimestep, VariableRecordTypes::TimeInterval, VariableRecordTypes::TimeLatency, VariableRecordTypes::TimeScheme, VariableRecordTypes::ExerciseElapsedTime, VariableRecordTypes::ElapsedTime, VariableRecordTypes::Environment, VariableRecordTypes::ScenarioDate, VariableRecordTypes::TimeDateValid, VariableRecordTypes::ScenarioTime, VariableRecordTypes::SnowEnableDisable, VariableRecordTypes::WeatherAttributesRequest, VariableRecordTypes::METHeartbeatMessage, VariableRecordTypes::ContrailsEnable, VariableRecordTypes::ContrailAltitudes, VariableRecordTypes::Weather1, VariableRecordTypes::WeatherCondition, VariableRecordTypes::ThermalCondition, VariableRecordTypes::ThermalVisibility1, VariableRecordTypes::ThermalVisibility2, VariableRecordTypes::Time1, VariableRecordTypes::Time2, VariableRecordTypes::TimeofDayDiscrete, VariableRecordTypes::TimeofDayContinuous, VariableRecordTypes::TimeMode, VariableRecordTypes::TimeScene, VariableRecordTypes::CurrentHour, VariableRecordTypes::CurrentMinute, VariableRecordTypes::CurrentSecond, VariableRecordTypes::Azimuth1, VariableRecordTypes::MaximumElevation, VariableRecordTypes::TimeZone, VariableRecordTypes::TimeRate, VariableRecordTypes::TheNumberOfSimulationSecondsSinceTheStartOfTheExercise, VariableRecordTypes::TimeSunriseEnabled, VariableRecordTypes::SunriseHour, VariableRecordTypes::SunriseMinute, VariableRecordTypes::SunriseSecond, VariableRecordTypes::SunriseAzimuth, VariableRecordTypes::TimeSunsetEnabled, VariableRecordTypes::SunsetHour1, VariableRecordTypes::SunsetHour2, VariableRecordTypes::SunsetMinute, VariableRecordTypes::SunsetSecond, VariableRecordTypes::Date1, VariableRecordTypes::DateEuropean, VariableRecordTypes::DateUS, VariableRecordTypes::Month, VariableRecordTypes::Day, VariableRecordTypes::Year, VariableRecordTypes::Clouds, VariableRecordTypes::CloudLayerEnable, VariableRecordTypes::CloudLayerSelection, VariableRecordTypes::Visibility, VariableRecordTypes::BaseAltitude1, VariableRecordTypes::BaseAltitude2, VariableRecordTypes::Ceiling1, VariableRecordTypes::Ceiling2, VariableRecordTypes::Characteristics, VariableRecordTypes::ConcentrationLength, VariableRecordTypes::Transmittance, VariableRecordTypes::Radiance, VariableRecordTypes::Precipitation, VariableRecordTypes::Rain, VariableRecordTypes::Fog, VariableRecordTypes::Visibility1, VariableRecordTypes::Visibility2, VariableRecordTypes::Visibility3, VariableRecordTypes::Density1, VariableRecordTypes::Base, VariableRecordTypes::ViewLayerfromabove_, VariableRecordTypes::TransitionRange, VariableRecordTypes::Bottom1, VariableRecordTypes::Bottom2, VariableRecordTypes::Ceiling3, VariableRecordTypes::Ceiling4, VariableRecordTypes::HeavenlyBodies, VariableRecordTypes::Sun, VariableRecordTypes::SunVisible, VariableRecordTypes::Position1, VariableRecordTypes::SunPositionElevationDegrees, VariableRecordTypes::PositionAzimuth1, VariableRecordTypes::SunPositionAzimuthDegrees, VariableRecordTypes::PositionElevation1, VariableRecordTypes::PositionIntensity1, VariableRecordTypes::Moon, VariableRecordTypes::MoonVisible, VariableRecordTypes::Position2, VariableRecordTypes::PositionAzimuth2, VariableRecordTypes::MoonPositionAzimuthDegrees, VariableRecordTypes::PositionElevation2, VariableRecordTypes::MoonPositionElevationDegrees, VariableRecordTypes::PositionIntensity2, VariableRecordTypes::Horizon, VariableRecordTypes::HorizonAzimuth, VariableRecordTypes::HorizonElevation, VariableRecordTypes::HorizonHeading, VariableRecordTypes::HorizonIntensity, VariableRecordTypes::Humidity, VariableRecordTypes::Visibility4, VariableRecordTypes::Winds, VariableRecordTypes::Speed2, VariableRecordTypes::WindSpeedKnots, VariableRecordTypes::WindDirection1, VariableRecordTypes::WindDirectionDegrees, VariableRecordTypes::Rainsoak, VariableRecordTypes::TideSpeed, VariableRecordTypes::TideSpeedKnots, VariableRecordTypes::TideDirection, VariableRecordTypes::TideDirectionDegrees, VariableRecordTypes::Haze, VariableRecordTypes::Visibility5, VariableRecordTypes::Visibility6, VariableRecordTypes::Density2, VariableRecordTypes::Ceiling5, VariableRecordTypes::Ceiling6, VariableRecordTypes::ContaminantsandObscurants, VariableRecordTypes::ContaminantObscurantType, VariableRecordTypes::Persistence, VariableRecordTypes::ChemicalDosage, VariableRecordTypes::ChemicalAirConcentration, VariableRecordTypes::ChemicalGroundDeposition, VariableRecordTypes::ChemicalMaximumGroundDeposition, VariableRecordTypes::ChemicalDosageThreshold, VariableRecordTypes::BiologicalDosage, VariableRecordTypes::BiologicalAirConcentration, VariableRecordTypes::BiologicalDosageThreshold, VariableRecordTypes::BiologicalBinnedParticleCount, VariableRecordTypes::RadiologicalDosage, VariableRecordTypes::Communications, VariableRecordTypes::FireBottleReload, VariableRecordTypes::ChannelType1, VariableRecordTypes::ChannelType2, VariableRecordTypes::ChannelIdentification, VariableRecordTypes::AlphaIdentification, VariableRecordTypes::RadioIdentification, VariableRecordTypes::LandLineIdentification, VariableRecordTypes::IntercomIdentification, VariableRecordTypes::GroupNetworkChannelNumber, VariableRecordTypes::RadioCommunicationsStatus, VariableRecordTypes::BoomInterphone, VariableRecordTypes::StationaryRadioTransmittersDefaultTime, VariableRecordTypes::MovingRadioTransmittersDefaultTime, VariableRecordTypes::StationaryRadioSignalsDefaultTime, VariableRecordTypes::MovingRadioSignalDefaultTime, VariableRecordTypes::RadioInitializationTransecSecurityKey, VariableRecordTypes::RadioInitializationInternalNoiseLevel, VariableRecordTypes::RadioInitializationSquelchThreshold, VariableRecordTypes::RadioInitializationAntennaLocation, VariableRecordTypes::RadioInitializationAntennaPatternType, VariableRecordTypes::RadioInitializationAntennaPatternLength, VariableRecordTypes::RadioInitializationBeamDefinition, VariableRecordTypes::RadioInitializationTransmitHeartbeatTime, VariableRecordTypes::RadioInitializationTransmitDistanceThresholdVariableRecord, VariableRecordTypes::RadioChannelInitializationLockoutID, VariableRecordTypes::RadioChannelInitializationHopsetID, VariableRecordTypes::RadioChannelInitializationPresetFrequency, VariableRecordTypes::RadioChannelInitializationFrequencySyncTime, VariableRecordTypes::RadioChannelInitializationComsecKey, VariableRecordTypes::RadioChannelInitializationAlpha, VariableRecordTypes::AlgorithmParameters, VariableRecordTypes::DeadReckoningAlgorithm1, VariableRecordTypes::DRALocationThreshold, VariableRecordTypes::DRAOrientationThreshold, VariableRecordTypes::DRATimeThreshold, VariableRecordTypes::SimulationManagementParameters, VariableRecordTypes::CheckpointInterval, VariableRecordTypes::TransmitterTimeThreshold, VariableRecordTypes::ReceiverTimeThreshold, VariableRecordTypes::InteroperabilityMode, VariableRecordTypes::SIMNETDataCollection, VariableRecordTypes::EventID, VariableRecordTypes::SourceSiteID, VariableRecordTypes::SourceHostID, VariableRecordTypes::ArticulatedParts, VariableRecordTypes::PartID, VariableRecordTypes::Index, VariableRecordTypes::Position3, VariableRecordTypes::PositionRate, VariableRecordTypes::Extension, VariableRecordTypes::ExtensionRate, VariableRecordTypes::X3, VariableRecordTypes::Xrate, VariableRecordTypes::Y3, VariableRecordTypes::Yrate, VariableRecordTypes::Z3, VariableRecordTypes::Zrate, VariableRecordTypes::Azimuth2, VariableRecordTypes::AzimuthRate, VariableRecordTypes::Elevation, VariableRecordTypes::ElevationRate, VariableRecordTypes::Rotation2, VariableRecordTypes::RotationRate, VariableRecordTypes::DRAAngularXVelocity, VariableRecordTypes::DRAAngularYVelocity, VariableRecordTypes::DRAAngularZVelocity, VariableRecordTypes::AppearanceTrailingEffects, VariableRecordTypes::AppearanceHatch, VariableRecordTypes::AppearanceCharacterSet, VariableRecordTypes::CapabilityAmmunitionSupplier, VariableRecordTypes::CapabilityMiscellaneousSupplier, VariableRecordTypes::CapabilityRepairProvider, VariableRecordTypes::ArticulationParameter, VariableRecordTypes::ArticulationParameterType1, VariableRecordTypes::ArticulationParameterValue1, VariableRecordTypes::TimeofDayScene, VariableRecordTypes::LatitudeNorth, VariableRecordTypes::LongitudeEast, VariableRecordTypes::TacticalDriverStatus, VariableRecordTypes::SonarSystemStatus, VariableRecordTypes::Accomplishedaccept, VariableRecordTypes::Upperlatitude, VariableRecordTypes::LatitudeSouth, VariableRecordTypes::Westernlongitude, VariableRecordTypes::LongitudeWest, VariableRecordTypes::CDROMNumber, VariableRecordTypes::DTEDdiskID, VariableRecordTypes::Altitude3, VariableRecordTypes::TacticalSystemStatus, VariableRecordTypes::JTIDSStatus, VariableRecordTypes::TADILJStatus, VariableRecordTypes::DSDDStatus, VariableRecordTypes::WeaponSystemStatus, VariableRecordTypes::Subsystemstatus, VariableRecordTypes::Numberofinterceptorsfired, VariableRecordTypes::Numberofinterceptordetonations, VariableRecordTypes::Numberofmessagebuffersdropped, VariableRecordTypes::Satellitesensorbackground1, VariableRecordTypes::Satellitesensorbackground2, VariableRecordTypes::ScriptNumber, VariableRecordTypes::EntityTrackUpdateData, VariableRecordTypes::LocalForceTraining, VariableRecordTypes::EntityTrackIdentityData, VariableRecordTypes::EntityforTrackEvent, VariableRecordTypes::IFFstatus, VariableRecordTypes::EngagementData, VariableRecordTypes::TargetLatitude, VariableRecordTypes::TargetLongitude, VariableRecordTypes::AreaofInterestCenterLatitude, VariableRecordTypes::AreaofInterestCenterLongitude, VariableRecordTypes::AreaofInterestRadius, VariableRecordTypes::AreaofInterestType, VariableRecordTypes::TargetAggregateID, VariableRecordTypes::GICIdentificationNumber, VariableRecordTypes::EstimatedTimeofFlighttoTBMImpact, VariableRecordTypes::EstimatedInterceptTime, VariableRecordTypes::EstimatedTimeofFlighttoNextWaypoint, VariableRecordTypes::EntityTrackEquipmentData, VariableRecordTypes::EmissionEWData, VariableRecordTypes::AppearanceData, VariableRecordTypes::CommandOrderData, VariableRecordTypes::EnvironmentalData, VariableRecordTypes::SignificantEventData, VariableRecordTypes::OperatorActionData, VariableRecordTypes::ADAEngagementMode, VariableRecordTypes::ADAShootingStatus, VariableRecordTypes::ADAMode, VariableRecordTypes::ADARadarStatus, VariableRecordTypes::ShootCommand, VariableRecordTypes::ADAWeaponStatus, VariableRecordTypes::ADAFiringDisciple, VariableRecordTypes::OrderStatus, VariableRecordTypes::TimeSynchronization, VariableRecordTypes::TomahawkData, VariableRecordTypes::NumberofDetonations, VariableRecordTypes::NumberofIntercepts, VariableRecordTypes::OBTControlMT201, VariableRecordTypes::SensorDataMT202, VariableRecordTypes::EnvironmentalDataMT203, VariableRecordTypes::OwnshipDataMT204, VariableRecordTypes::AcousticContactDataMT205, VariableRecordTypes::SonobuoyDataMT207, VariableRecordTypes::SonobuoyContactDataMT210, VariableRecordTypes::HeloControlMT211, VariableRecordTypes::ESMControlData, VariableRecordTypes::ESMContactDataMT214, VariableRecordTypes::ESMEmitterDataMT215, VariableRecordTypes::WeaponDefinitionDataMT217, VariableRecordTypes::WeaponPresetDataMT217, VariableRecordTypes::OBTControlMT301, VariableRecordTypes::SensorDataMT302, VariableRecordTypes::EnvironmentalDataMT303m, VariableRecordTypes::OwnshipDataMT304, VariableRecordTypes::AcousticContactDataMT305, VariableRecordTypes::SonobuoyDataMT307, VariableRecordTypes::SonobuoyContactDataMT310, VariableRecordTypes::HeloScenarioEquipmentStatus, VariableRecordTypes::ESMControlDataMT313, VariableRecordTypes::ESMContactDataMT314, VariableRecordTypes::ESMEmitterDataMT315, VariableRecordTypes::WeaponDefinitionDataMT316, VariableRecordTypes::WeaponPresetDataMT317, VariableRecordTypes::PairingAssociation, VariableRecordTypes::Pointer, VariableRecordTypes::ReportingResponsibility, VariableRecordTypes::TrackNumber, VariableRecordTypes::IDforLink11Reporting, VariableRecordTypes::RemoteTrack, VariableRecordTypes::Link11ErrorRate, VariableRecordTypes::TrackQuality, VariableRecordTypes::Gridlock, VariableRecordTypes::Kill, VariableRecordTypes::TrackIDChangeResolution, VariableRecordTypes::WeaponsStatus, VariableRecordTypes::Link11Operator, VariableRecordTypes::ForceTrainingTransmit, VariableRecordTypes::ForceTrainingReceive, VariableRecordTypes::InterceptorAmplification1, VariableRecordTypes::Consumables1, VariableRecordTypes::Link11LocalTrackQuality, VariableRecordTypes::DLRP, VariableRecordTypes::ForceOrder, VariableRecordTypes::WilcoCantco, VariableRecordTypes::EMCBearing, VariableRecordTypes::ChangeTrackEligibility, VariableRecordTypes::LandMassReferencePoint, VariableRecordTypes::SystemReferencePoint, VariableRecordTypes::PUAmplification, VariableRecordTypes::SetDrift, VariableRecordTypes::BeginInitialization, VariableRecordTypes::StatusandControl, VariableRecordTypes::ScintillationChange, VariableRecordTypes::Link11IDControl, VariableRecordTypes::PUGuardList, VariableRecordTypes::WindsAloft, VariableRecordTypes::SurfaceWinds, VariableRecordTypes::SeaState, VariableRecordTypes::MagneticVariation, VariableRecordTypes::TrackEligibility, VariableRecordTypes::TrainingTrackNotification, VariableRecordTypes::TacanData, VariableRecordTypes::InterceptorAmplification2, VariableRecordTypes::TacanAssignment, VariableRecordTypes::AutopilotStatus, VariableRecordTypes::Consumables2, VariableRecordTypes::Downlink, VariableRecordTypes::TINReport, VariableRecordTypes::SpecialPointControl, VariableRecordTypes::ControlDiscretes, VariableRecordTypes::RequestTargetDiscretes, VariableRecordTypes::TargetDiscretes, VariableRecordTypes::ReplyDiscretes, VariableRecordTypes::CommandManeuvers, VariableRecordTypes::TargetData, VariableRecordTypes::TargetPointer, VariableRecordTypes::InterceptData, VariableRecordTypes::DecrementMissileInventory, VariableRecordTypes::Link4AAlert, VariableRecordTypes::StrikeControl, VariableRecordTypes::SpeedChange, VariableRecordTypes::CourseChange, VariableRecordTypes::AltitudeChange, VariableRecordTypes::ACLSANSPN46Status, VariableRecordTypes::ACLSAircraftReport, VariableRecordTypes::SPS67RadarOperatorFunctions, VariableRecordTypes::SPS55RadarOperatorFunctions, VariableRecordTypes::SPQ9ARadarOperatorFunctions, VariableRecordTypes::SPS49RadarOperatorFunctions, VariableRecordTypes::MK23RadarOperatorFunctions, VariableRecordTypes::SPS48RadarOperatorFunctions, VariableRecordTypes::SPS40RadarOperatorFunctions, VariableRecordTypes::MK95RadarOperatorFunctions, VariableRecordTypes::KillNoKill, VariableRecordTypes::CMTpc, VariableRecordTypes::CMC4AirGlobalData, VariableRecordTypes::CMC4GlobalData, VariableRecordTypes::LINKSIMCOMMENTPDU, VariableRecordTypes::NSSTOwnshipControl, VariableRecordTypes::Other, VariableRecordTypes::MassOfTheVehicle, VariableRecordTypes::ForceID3, VariableRecordTypes::EntityTypeKind, VariableRecordTypes::EntityTypeDomain, VariableRecordTypes::EntityTypeCountry, VariableRecordTypes::EntityTypeCategory, VariableRecordTypes::EntityTypeSubCategory, VariableRecordTypes::EntityTypeSpecific, VariableRecordTypes::EntityTypeExtra, VariableRecordTypes::AlternativeEntityTypeKind, VariableRecordTypes::AlternativeEntityTypeDomain, VariableRecordTypes::AlternativeEntityTypeCountry, VariableRecordTypes::AlternativeEntityTypeCategory, VariableRecordTypes::AlternativeEntityTypeSubCategory, VariableRecordTypes::AlternativeEntityTypeSpecific, VariableRecordTypes::AlternativeEntityTypeExtra, VariableRecordTypes::EntityLocationX, VariableRecordTypes::EntityLocationY, VariableRecordTypes::EntityLocationZ, VariableRecordTypes::EntityLinearVelocityX, VariableRecordTypes::EntityLinearVelocityY, VariableRecordTypes::EntityLinearVelocityZ, VariableRecordTypes::EntityOrientationPsi, VariableRecordTypes::EntityOrientationTheta, VariableRecordTypes::EntityOrientationPhi, VariableRecordTypes::DeadReckoningAlgorithm2, VariableRecordTypes::DeadReckoningLinearAccelerationX, VariableRecordTypes::DeadReckoningLinearAccelerationY, VariableRecordTypes::DeadReckoningLinearAccelerationZ, VariableRecordTypes::DeadReckoningAngularVelocityX, VariableRecordTypes::DeadReckoningAngularVelocityY, VariableRecordTypes::DeadReckoningAngularVelocityZ, VariableRecordTypes::EntityAppearance, VariableRecordTypes::EntityMarkingCharacterSet, VariableRecordTypes::EntityMarking11Bytes, VariableRecordTypes::Capability, VariableRecordTypes::NumberArticulationParameters, VariableRecordTypes::ArticulationParameterID, VariableRecordTypes::ArticulationParameterType2, VariableRecordTypes::ArticulationParameterValue2, VariableRecordTypes::TypeOfStores, VariableRecordTypes::QuantityOfStores, VariableRecordTypes::FuelQuantity, VariableRecordTypes::RadarSystemStatus, VariableRecordTypes::RadioCommunicationSystemStatus, VariableRecordTypes::DefaultTimeForRadioTransmissionForStationaryTransmitters, VariableRecordTypes::DefaultTimeForRadioTransmissionForMovingTransmitters, VariableRecordTypes::BodyPartDamagedRatio, VariableRecordTypes::NameOfTheTerrainDatabaseFile, VariableRecordTypes::NameOfLocalFile, VariableRecordTypes::AimpointBearing, VariableRecordTypes::AimpointElevation, VariableRecordTypes::AimpointRange, VariableRecordTypes::AirSpeed, VariableRecordTypes::Altitude, VariableRecordTypes::ApplicationStatus, VariableRecordTypes::AutoIff, VariableRecordTypes::BeaconDelay, VariableRecordTypes::BingoFuelSetting, VariableRecordTypes::CloudBottom, VariableRecordTypes::CloudTop, VariableRecordTypes::Direction, VariableRecordTypes::EndAction, VariableRecordTypes::Frequency, VariableRecordTypes::Freeze, VariableRecordTypes::Heading, VariableRecordTypes::Identification2, VariableRecordTypes::InitialPointData, VariableRecordTypes::Latitude2, VariableRecordTypes::Lights2, VariableRecordTypes::Linear, VariableRecordTypes::Longitude2, VariableRecordTypes::LowAltitude, VariableRecordTypes::MfdFormats, VariableRecordTypes::Nctr, VariableRecordTypes::NumberProjectiles, VariableRecordTypes::OperationCode, VariableRecordTypes::Pitch, VariableRecordTypes::Profiles, VariableRecordTypes::Quantity3, VariableRecordTypes::RadarModes, VariableRecordTypes::RadarSearchVolume, VariableRecordTypes::Roll, VariableRecordTypes::Rotation, VariableRecordTypes::ScaleFactorX, VariableRecordTypes::ScaleFactorY, VariableRecordTypes::Shields2, VariableRecordTypes::Steerpoint, VariableRecordTypes::Spare1, VariableRecordTypes::Spare2, VariableRecordTypes::Team, VariableRecordTypes::Text, VariableRecordTypes::TimeOfDay, VariableRecordTypes::TrailFlag, VariableRecordTypes::TrailSize, VariableRecordTypes::TypeOfProjectile, VariableRecordTypes::TypeOfTarget, VariableRecordTypes::TypeOfThreat, VariableRecordTypes::UhfFrequency, VariableRecordTypes::UtmAltitude, VariableRecordTypes::UtmLatitude, VariableRecordTypes::UtmLongitude, VariableRecordTypes::VhfFrequency, VariableRecordTypes::VisibilityRange, VariableRecordTypes::VoidAaaHit, VariableRecordTypes::VoidCollision, VariableRecordTypes::VoidEarthHit, VariableRecordTypes::VoidFriendly, VariableRecordTypes::VoidGunHit, VariableRecordTypes::VoidRocketHit, VariableRecordTypes::VoidSamHit, VariableRecordTypes::WeaponData, VariableRecordTypes::WeaponType, VariableRecordTypes::Weather2, VariableRecordTypes::WindDirection2, VariableRecordTypes::WindSpeed, VariableRecordTypes::WingStation, VariableRecordTypes::Yaw, VariableRecordTypes::MemoryOffset, VariableRecordTypes::MemoryData, VariableRecordTypes::VASI, VariableRecordTypes::Beacon, VariableRecordTypes::Strobe, VariableRecordTypes::Culture, VariableRecordTypes::Approach, VariableRecordTypes::RunwayEnd, VariableRecordTypes::Obstruction, VariableRecordTypes::RunwayEdge, VariableRecordTypes::RampTaxiway, VariableRecordTypes::LaserBombCode, VariableRecordTypes::RackType, VariableRecordTypes::HUD, VariableRecordTypes::RoleFileName, VariableRecordTypes::PilotName, VariableRecordTypes::PilotDesignation, VariableRecordTypes::ModelType, VariableRecordTypes::DISType, VariableRecordTypes::Class, VariableRecordTypes::Channel, VariableRecordTypes::EntityType2, VariableRecordTypes::AlternativeEntityType2, VariableRecordTypes::EntityLocation, VariableRecordTypes::EntityLinearVelocity, VariableRecordTypes::EntityOrientation, VariableRecordTypes::DeadReckoning, VariableRecordTypes::FailureSymptom, VariableRecordTypes::MaxFuel, VariableRecordTypes::RefuelingBoomConnect, VariableRecordTypes::AltitudeAGL, VariableRecordTypes::CalibratedAirspeed, VariableRecordTypes::TACANChannel1, VariableRecordTypes::TACANBand1, VariableRecordTypes::TACANMode1, VariableRecordTypes::FuelFlowRate, VariableRecordTypes::FuelTemperature, VariableRecordTypes::FuelPressure, VariableRecordTypes::SKESlot, VariableRecordTypes::SKELead, VariableRecordTypes::SKEFrequency, VariableRecordTypes::FCICmd, VariableRecordTypes::FCINum, VariableRecordTypes::SKEBitField, VariableRecordTypes::FormationPosition, VariableRecordTypes::FormationNumber, VariableRecordTypes::FFSModeActive, VariableRecordTypes::FFSRole, VariableRecordTypes::FFSVCAS, VariableRecordTypes::FFSBitField, VariableRecordTypes::FFSCallSign, VariableRecordTypes::FFSGuidanceData, VariableRecordTypes::FFSTextData, VariableRecordTypes::FFSAirdropRequestData, VariableRecordTypes::FFSAirdropData, VariableRecordTypes::HorizontalCircularErrorProbable, VariableRecordTypes::HorizontalPositionError, VariableRecordTypes::VerticalPositionError, VariableRecordTypes::HorizontalVelocityError, VariableRecordTypes::VerticalVelocityError, VariableRecordTypes::_4thLowestJammertoSignalRatioforP1, VariableRecordTypes::_4thLowestJammertoSignalRatioforP2, VariableRecordTypes::GPSFigureofMerit, VariableRecordTypes::WeaponTransferGPSState, VariableRecordTypes::WeaponTransferHorizontalPositionError, VariableRecordTypes::WeaponTransferVerticalPositionError1, VariableRecordTypes::WeaponTransferVerticalPositionError2, VariableRecordTypes::WeaponTransferHorizontalVelocityError, VariableRecordTypes::TimeTransferError, VariableRecordTypes::AgeofEphemeris, VariableRecordTypes::NonFlyoutMunitionEntityRequestDISTypeEnumeration, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointX, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointY, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointZ, VariableRecordTypes::NonFlyoutMunitionEntityRequestMaximumAltitude, VariableRecordTypes::NonFlyoutMunitionEntityRequestFlightPath, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointX, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointY, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointZ, VariableRecordTypes::NonFlyoutMunitionEntityRequestElapsedFlightTime, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchTime, VariableRecordTypes::TimeError, VariableRecordTypes::Link16CommandVariety1, VariableRecordTypes::Push, VariableRecordTypes::Rolex, VariableRecordTypes::TerminateIntercept, VariableRecordTypes::HealDamage, VariableRecordTypes::Destroy, VariableRecordTypes::TransferControlManagement, VariableRecordTypes::Link16ControlsPPLIEnable, VariableRecordTypes::Link16ControlsCommandControlEnable, VariableRecordTypes::Link16ReferencePointMessageInitiation, VariableRecordTypes::AssignExternalEntityLink16TrackNumber, VariableRecordTypes::Link16IntelligenceInfo, VariableRecordTypes::Link16TrackManagement, VariableRecordTypes::Link16ControlsCESGlobalPPLIPublish, VariableRecordTypes::Link16ControlsCESGlobalSurveillancePublish, VariableRecordTypes::RequestGlobalLink16Configuration, VariableRecordTypes::Link16ControlsSurveillanceEnable, VariableRecordTypes::Link16Pointer, VariableRecordTypes::Link16Vector, VariableRecordTypes::Link16ControlUnitChange, VariableRecordTypes::Link16Text, VariableRecordTypes::RequestLink16Objects, VariableRecordTypes::Link16RefObjectNameList, VariableRecordTypes::TotalNumberofPDUsinLink16RefObjectsResponse, VariableRecordTypes::PDUNumberinLink16RefObjectsResponse, VariableRecordTypes::TotalNumberofLink16RefObjects, VariableRecordTypes::Link16ControlsF2FAEnable, VariableRecordTypes::Link16ControlsF2FBEnable, VariableRecordTypes::STNofFormationLeader, VariableRecordTypes::FormationName, VariableRecordTypes::FormationRole, VariableRecordTypes::SurveillanceContributorSensorBasedDetection, VariableRecordTypes::F2FANPG, VariableRecordTypes::Link16ControlsF2FANet, VariableRecordTypes::F2FBNPG, VariableRecordTypes::Link16ControlsF2FBNet, VariableRecordTypes::SurveillanceEnabledNPB, VariableRecordTypes::SurveillanceEnabledNet, VariableRecordTypes::ControlUnitEnabled, VariableRecordTypes::ControlUnitEnabledNPG, VariableRecordTypes::ControlUnitEnabledNet, VariableRecordTypes::VoiceFrequency, VariableRecordTypes::Link16JTIDSVoiceCallsign, VariableRecordTypes::EntityIDofControlUnit, VariableRecordTypes::STNofControlUnit, VariableRecordTypes::NTRParticipationLevel, VariableRecordTypes::Link16ControlsCESGlobalPPLISubscribe, VariableRecordTypes::Link16ControlsCESGlobalSurveillanceSubscribe, VariableRecordTypes::NTRinMission, VariableRecordTypes::NTRMarking, VariableRecordTypes::NTRReceiptCompliance, VariableRecordTypes::FormationF2FNPG, VariableRecordTypes::FormationF2FChannel, VariableRecordTypes::JLVCLogReport, VariableRecordTypes::JLVCSupplyAdjust, VariableRecordTypes::JLVCEntityControl, VariableRecordTypes::JLVCHealthUpdate, VariableRecordTypes::JLVCRepairComplete, VariableRecordTypes::JLVCUnitActivation, VariableRecordTypes::JLVCBattleDamageRepair, VariableRecordTypes::JLVCMinefield, VariableRecordTypes::JLVCWire, VariableRecordTypes::JLVCAbatis, VariableRecordTypes::JLVCCrater, VariableRecordTypes::JLVCDitch, VariableRecordTypes::JLVCLanes, VariableRecordTypes::JLVCIED, VariableRecordTypes::JLVCRubble, VariableRecordTypes::JLVCSubmergedBarrier, VariableRecordTypes::JLVCFloatingBarrier, VariableRecordTypes::JLVCFoxhole, VariableRecordTypes::JLVCVehicleHole, VariableRecordTypes::JLVCVehicleFortification, VariableRecordTypes::JLVCSandbag, VariableRecordTypes::JLVCCheckpoint, VariableRecordTypes::JLVCContamCloud2D, VariableRecordTypes::JLVCPopulationEffect, VariableRecordTypes::JLVCMine, VariableRecordTypes::JLVCSeaMinefield, VariableRecordTypes::Munition, VariableRecordTypes::EngineFuel, VariableRecordTypes::StorageFuel, VariableRecordTypes::NotUsed, VariableRecordTypes::Expendable, VariableRecordTypes::TotalRecordSets, VariableRecordTypes::LaunchedMunition, VariableRecordTypes::Association, VariableRecordTypes::Sensor, VariableRecordTypes::MunitionReload, VariableRecordTypes::EngineFuelReload, VariableRecordTypes::StorageFuelReload, VariableRecordTypes::ExpendableReload, VariableRecordTypes::IFFChangeControlMode1Code, VariableRecordTypes::IFFChangeControlMode2Code, VariableRecordTypes::IFFChangeControlMode3Code, VariableRecordTypes::IFFChangeControlMode4Code, VariableRecordTypes::IFFChangeControlMode5Code, VariableRecordTypes::IFFChangeControlMode6Code, VariableRecordTypes::Link16Data, VariableRecordTypes::ARMAlert, VariableRecordTypes::IFFChangeControlModeOnOff, VariableRecordTypes::WeaponStatusData, VariableRecordTypes::ExpendableStatusData, VariableRecordTypes::TacticStatusData, VariableRecordTypes::EmitterSensorData, VariableRecordTypes::IOSControlData, VariableRecordTypes::StaticStatusData, VariableRecordTypes::RequestInactiveEntities, VariableRecordTypes::InactiveEntityQuantity, VariableRecordTypes::InactiveEntityID, VariableRecordTypes::InactiveEntityType, VariableRecordTypes::ActivationTriggerType, VariableRecordTypes::ActivationTriggerValue, VariableRecordTypes::AirtoAirMissileQty, VariableRecordTypes::AIM7MissileQty, VariableRecordTypes::AIM9MissileQty, VariableRecordTypes::AIM120MissileQty, VariableRecordTypes::AirtoGroundMissileQty, VariableRecordTypes::SurfacetoAirMissileQty, VariableRecordTypes::BulletQty1, VariableRecordTypes::ChaffQty, VariableRecordTypes::FlareQty, VariableRecordTypes::FuelLevel, VariableRecordTypes::RouteType, VariableRecordTypes::ThreatMode, VariableRecordTypes::TargetOccluded, VariableRecordTypes::TerrainHeight, VariableRecordTypes::EntityStatus, VariableRecordTypes::MarshalStatus, VariableRecordTypes::PowerPlantStatus, VariableRecordTypes::NavLightStatus, VariableRecordTypes::InteriorLightStatus, VariableRecordTypes::LandingLightStatus, VariableRecordTypes::FormationLightStatus, VariableRecordTypes::AntiCollisionLightStatus, VariableRecordTypes::NavFormationFlashRate, VariableRecordTypes::AntiColOnDuration, VariableRecordTypes::AntiColOffDuration, VariableRecordTypes::InterceptStatus, VariableRecordTypes::LifeFormSignalingDeviceType, VariableRecordTypes::LifeFormMovementType, VariableRecordTypes::LifeFormInVehicle, VariableRecordTypes::MobilityKill2, VariableRecordTypes::FirepowerKill, VariableRecordTypes::TankerEnabledDisabled, VariableRecordTypes::ThreatStatusTacticOKtoShootDownWeapons, VariableRecordTypes::TACANChannel2, VariableRecordTypes::TACANBand2, VariableRecordTypes::TACANMode2, VariableRecordTypes::RWRStatus, VariableRecordTypes::UHFRadioFrequency, VariableRecordTypes::EmitJammingStatus, VariableRecordTypes::EmitJammingType, VariableRecordTypes::ReceiveJammingStatus, VariableRecordTypes::RADARMode, VariableRecordTypes::AvailableRADARModes, VariableRecordTypes::JammerPodEnumeration, VariableRecordTypes::JammerPodBehavior, VariableRecordTypes::JammerPodPrograms, VariableRecordTypes::JammerPodReceiverSensitivity, VariableRecordTypes::JammerPodReceiverFrequencyMinimum, VariableRecordTypes::JammerPodReceiverFrequencyMaximum, VariableRecordTypes::JammerPodPower, VariableRecordTypes::JammerPodVariability, VariableRecordTypes::JammerPodNumberofFalseTargets, VariableRecordTypes::JammerPodJammerKnob, VariableRecordTypes::JammerPodMissileJamming, VariableRecordTypes::EmitterOverride2, VariableRecordTypes::JammerOverride, VariableRecordTypes::DisengageReengage2, VariableRecordTypes::HeadingOverride, VariableRecordTypes::AltitudeOverride, VariableRecordTypes::SpeedOverride, VariableRecordTypes::VerboseOverride, VariableRecordTypes::OcclusionOverride, VariableRecordTypes::CommitRange, VariableRecordTypes::CurrentScenarioIFFMode4ACodeforThisThreatsAffiliation, VariableRecordTypes::CurrentScenarioIFFMode4BCodeforThisThreatsAffiliation, VariableRecordTypes::OktoEngageWaypointNumber, VariableRecordTypes::MaxSpeedatSeaLevel, VariableRecordTypes::MaxSpeed, VariableRecordTypes::CurrentWaypointNumber, VariableRecordTypes::RouteInformation, VariableRecordTypes::ThreatStatusStaticMultiTargetTrack, VariableRecordTypes::AirAirIRMissileQty, VariableRecordTypes::AirAirRadarMissileQty, VariableRecordTypes::AirGroundIRMissileQty, VariableRecordTypes::AirGroundRadarMissileQty, VariableRecordTypes::AirGroundAntiRadiationMissileQty, VariableRecordTypes::AirGroundBombQty, VariableRecordTypes::AirGroundRocketQty, VariableRecordTypes::SurfaceAirIRMissileQty, VariableRecordTypes::SurfaceAirRadarMissileQty, VariableRecordTypes::BulletQty2, VariableRecordTypes::PPLIPublishEnabled, VariableRecordTypes::SurveillancePublishEnabled, VariableRecordTypes::NPG, VariableRecordTypes::NPGChannel, VariableRecordTypes::JTIDSTrackNumber, VariableRecordTypes::Link16ControlsSurveillanceReportable, VariableRecordTypes::Link16ControlsSurveillanceTrackQuality, VariableRecordTypes::Link16ControlsTargetPositionQuality, VariableRecordTypes::Link16ControlsQualityErrorType, VariableRecordTypes::Link16ControlsAffiliationDeterminationRule, VariableRecordTypes::Link16ControlsResetEntityAffiliation, VariableRecordTypes::Link16ControlsResetAllAffiliation, VariableRecordTypes::EndofMessages, VariableRecordTypes::MalfunctionActivateDeactivateSet, VariableRecordTypes::MalfunctionStatus, VariableRecordTypes::RequestJTIDSTrackNumbers, VariableRecordTypes::TrackNumbersvsEID, VariableRecordTypes::TotalNumberofJTIDSTrackNumbers, VariableRecordTypes::PDUNumberinJTIDSTrackNumberResponse, VariableRecordTypes::TotalNumberofPDUsinJTIDSTrackNumberResponse, VariableRecordTypes::AirtoAirRefuelerEntitiesRequest, VariableRecordTypes::AirtoAirRefuelingCount, VariableRecordTypes::AirToAirRefuelerEntity, VariableRecordTypes::FormationLibraryRequest, VariableRecordTypes::TotalNumberFormationLibraryPDUs1, VariableRecordTypes::PDUNumberinFormationLibraryResponse1, VariableRecordTypes::TotalNumberFormationLibraryItemsinPDU, VariableRecordTypes::FormationLibraryVariable, VariableRecordTypes::CreateRuntimeFormation, VariableRecordTypes::FormationRequestHeader, VariableRecordTypes::FormationPositionAbsolute, VariableRecordTypes::FormationPositionRelative, VariableRecordTypes::ExpendablesReload, VariableRecordTypes::PositionFreeze, VariableRecordTypes::ActivateOwnship, VariableRecordTypes::Chocks, VariableRecordTypes::WarmupCooldownOverride, VariableRecordTypes::GroundPower, VariableRecordTypes::ScrambleStart, VariableRecordTypes::OwnshipasaThreat, VariableRecordTypes::FuelExternal, VariableRecordTypes::FuelInternal, VariableRecordTypes::FuelTankTemp, VariableRecordTypes::GrossWeight, VariableRecordTypes::AngleOfAttack, VariableRecordTypes::GLoad, VariableRecordTypes::WeightOnWheels, VariableRecordTypes::StoredEnergySystemReload, VariableRecordTypes::KillOverride, VariableRecordTypes::ExpendablesFreeze, VariableRecordTypes::GPSSatellitesEnableDisable, VariableRecordTypes::OwnshipMessageDisplay, VariableRecordTypes::WeaponQuantityFreeze, VariableRecordTypes::GlobalControlFreezeWeaponsQuantityOnAllOwnships, VariableRecordTypes::GlobalControlFreezeFuelQuantityOnAllOwnships, VariableRecordTypes::GlobalControlFreezeKillOverrideOnAllOwnships, VariableRecordTypes::GlobalControlFreezeCrashOverrideOnAllOwnships, VariableRecordTypes::OwnshipOFPBlockNumber, VariableRecordTypes::WaypointInformationQuery, VariableRecordTypes::WaypointInformation, VariableRecordTypes::OwnshipSubsystemStatusData, VariableRecordTypes::CockpitSwitchStatus, VariableRecordTypes::IntegratedControlPanelMessages, VariableRecordTypes::ThrottlePositions, VariableRecordTypes::CurrentCriticalSwitchPosition, VariableRecordTypes::CorrectCriticalSwitchPosition, VariableRecordTypes::CurrentCriticalSwitchData, VariableRecordTypes::CorrectCriticalSwitchData, VariableRecordTypes::MissionInitialConditionsSet, VariableRecordTypes::GlobalControlMalfunctionActiveonAllOwnships, VariableRecordTypes::GlobalControlMalfunctionClearOnAllOwnships, VariableRecordTypes::ValidatedCriticalSwitchReport, VariableRecordTypes::SARMapPathname, VariableRecordTypes::ValidatedCriticalSwitchOwnshipID, VariableRecordTypes::LowerBoomEventReport, VariableRecordTypes::RaiseBoomEventReport, VariableRecordTypes::BreakawayEventReport, VariableRecordTypes::CompleteEventReport, VariableRecordTypes::AuxCommPanelFrequencyDisplay, VariableRecordTypes::NetworkStationInformation, VariableRecordTypes::GlobalControlSelectNetworkStation, VariableRecordTypes::NetworkStationUnderGlobalControl, VariableRecordTypes::GlobalControlStillControlling, VariableRecordTypes::GlobalControlReleaseControlofNetworkStation, VariableRecordTypes::GlobalControlFreezeWeaponQuantity, VariableRecordTypes::GlobalControlFreezeFuelQuantity, VariableRecordTypes::GlobalControlFreezeKillOverride, VariableRecordTypes::GlobalControlFreezeCrashOverride, VariableRecordTypes::GlobalControlMalfunctionActive, VariableRecordTypes::GlobalControlMalfunctionClear, VariableRecordTypes::GlobalControlStartDevices, VariableRecordTypes::GlobalControlFreezeDevices, VariableRecordTypes::GlobalControlJTIDSCommand, VariableRecordTypes::NetworkStationICSetInformation, VariableRecordTypes::GlobalControlResetICSet, VariableRecordTypes::NumberofControllingUnits, VariableRecordTypes::NetworkStationJTIDSControllingUnits, VariableRecordTypes::NetworkStationJTIDSObjectiveTracks, VariableRecordTypes::NumberofReferenceObjects, VariableRecordTypes::NetworkStationJTIDSReferenceObjects, VariableRecordTypes::NetworkedStationStillUnderControl, VariableRecordTypes::GlobalControlDeleteThreatEntities, VariableRecordTypes::NetworkStationOwnshipCallsigns, VariableRecordTypes::GlobalControlRequestFormationLibraryData, VariableRecordTypes::TotalNumberFormationLibraryPDUs2, VariableRecordTypes::PDUNumberinFormationLibraryResponse2, VariableRecordTypes::TotalNumberFormationLibraryItemsinPDUs, VariableRecordTypes::NetworkStationFormationLibraryItem, VariableRecordTypes::GlobalControlAddRelativeFormation, VariableRecordTypes::NetworkStationTICFilename, VariableRecordTypes::GlobalControlFreezeWarmupOverride, VariableRecordTypes::GlobalControlReloadSES, VariableRecordTypes::GlobalControlReloadWeapons, VariableRecordTypes::GlobalControlReloadExpendables, VariableRecordTypes::GlobalControlReloadFuel, VariableRecordTypes::GlobalControlReloadFirebottle, VariableRecordTypes::TestPattern, VariableRecordTypes::AudioTest, VariableRecordTypes::AudioTone, VariableRecordTypes::CalibrateThrottles, VariableRecordTypes::OperationalLimitsEventReport, VariableRecordTypes::OperationalLimits, VariableRecordTypes::EventMarkerMessage, VariableRecordTypes::ReceiverAircraftAeroModelData, VariableRecordTypes::TankerAircraftAeroModelData, VariableRecordTypes::BoomAircraftAeroModelData, VariableRecordTypes::AccesstoImageGeneratorData1, VariableRecordTypes::AccesstoImageGeneratorData2, VariableRecordTypes::AccesstoImageGeneratorData3, VariableRecordTypes::AccesstoImageGeneratorData4, VariableRecordTypes::AccesstoImageGeneratorData5, VariableRecordTypes::AccesstoImageGeneratorData6, VariableRecordTypes::AccesstoImageGeneratorData7, VariableRecordTypes::AccesstoImageGeneratorData8, VariableRecordTypes::AccesstoImageGeneratorData9, VariableRecordTypes::AccesstoImageGeneratorData10, VariableRecordTypes::AccesstoImageGeneratorData11, VariableRecordTypes::AccesstoImageGeneratorData12, VariableRecordTypes::AccesstoImageGeneratorData13, VariableRecordTypes::AccesstoImageGeneratorData14, VariableRecordTypes::AccesstoImageGeneratorData15, VariableRecordTypes::AccesstoImageGeneratorData16, VariableRecordTypes::HostLoadNumber, VariableRecordTypes::ExtendedFireEventReports, VariableRecordTypes::BattleDamageAssessmentEventReport, VariableRecordTypes::ExtendedFireEventLauncher, VariableRecordTypes::ExtendedFireEventMissile, VariableRecordTypes::ExtendedFireEventMRMWeapon, VariableRecordTypes::ExtendedFireEventGunFireControl, VariableRecordTypes::ExtendedFireEventBomb, VariableRecordTypes::ExtendedFireEventExpendable, VariableRecordTypes::BattleDamageAssessment, VariableRecordTypes::ExtendedFirePickleEvent, VariableRecordTypes::RadarTrackReport, VariableRecordTypes::JammerReport, VariableRecordTypes::JammerFalseTargetsReport, VariableRecordTypes::DetectEventReport, VariableRecordTypes::MALDBeamReport, VariableRecordTypes::TransmitterRadiationVolume, VariableRecordTypes::TransmitterRadiationVolumev2, VariableRecordTypes::PhysicalNetworkDefinition, VariableRecordTypes::NetworkChannelDefinition, VariableRecordTypes::LogicalNetworkDefinition, VariableRecordTypes::LogicalNetworkEntityDefinition, VariableRecordTypes::PhysicalNetworkEntityDefinition, VariableRecordTypes::C2Message, VariableRecordTypes::CandidateObject, VariableRecordTypes::SetofCandidateObjects, VariableRecordTypes::BoundedRegion, VariableRecordTypes::AngularRegion, VariableRecordTypes::RoEObject, VariableRecordTypes::TrackObject, VariableRecordTypes::SetOfTrackObjects, VariableRecordTypes::LogicalEntityDefinition, VariableRecordTypes::LogicalEntityRelationshipDefinition, VariableRecordTypes::IntentBasedEWMessage];
static ALL_REASON: &[Reason] = &[Reason::Other, Reason::Recess, Reason::Termination, Reason::SystemFailure, Reason::SecurityViolation, Reason::EntityReconstitution, Reason::StopForReset, Reason::StopForRestart, Reason::AbortTrainingReturnToTacticalOperations];
static ALL_ACKNOWLEDGEFLAG: &[AcknowledgeFlag] = &[AcknowledgeFlag::CreateEntity, AcknowledgeFlag::RemoveEntity, AcknowledgeFlag::StartResume, AcknowledgeFlag::StopFreeze, AcknowledgeFlag::TransferOwnership];
static ALL_ACKNOWLEDGERESPONSEFLAG: &[AcknowledgeResponseFlag] = &[AcknowledgeResponseFlag::Other, AcknowledgeResponseFlag::AbleToComply, AcknowledgeResponseFlag::UnableToComply, AcknowledgeResponseFlag::PendingOperatorAction];
static ALL_ACTIONRESPONSEREQUESTSTATUS: &[ActionResponseRequestStatus] = &[ActionResponseRequestStatus::Other, ActionResponseRequestStatus::Pending, ActionResponseRequestStatus::Executing, ActionResponseRequestStatus::PartiallyComplete, ActionResponseRequestStatus::Complete, ActionResponseRequestStatus::RequestRejected, ActionResponseRequestStatus::RetransmitRequestNow, ActionResponseRequestStatus::RetransmitRequestLater, ActionResponseRequestStatus::InvalidTimeParameters, ActionResponseRequestStatus::SimulationTimeExceeded, ActionResponseRequestStatus::RequestDone, ActionResponseRequestStatus::TACCSFLOSReplyTypeOne, ActionResponseRequestStatus::TACCSFLOSReplyTypeTwo, ActionResponseRequestStatus::JoinExerciseRequestRejected];
static ALL_EVENTTYPE: &[EventType] = &[EventType::Other, EventType::RanOutOfAmmunition, EventType::KilledInAction, EventType::Damage, EventType::MobilityDisabled, EventType::FireDisabled, EventType::RanOutOfFuel, EventType::EntityInitialization, EventType::RequestForIndirectFireOrCASMission, EventType::IndirectFireOrCASFire, EventType::MinefieldEntry, EventType::MinefieldDetonation, EventType::VehicleMasterPowerOn, EventType::VehicleMasterPowerOff, EventType::AggregateStateChangeRequested, EventType::PreventCollisionDetonation, EventType::OwnershipReport, EventType::RadarPerception, EventType::Detect];
static ALL_REQUIREDRELIABILITYSERVICE: &[RequiredReliabilityService] = &[RequiredReliabilityService::Acknowledged, RequiredReliabilityService::Unacknowledged];
static ALL_DESIGNATORSYSTEMNAME: &[DesignatorSystemName] = &[DesignatorSystemName::NotSpecified, DesignatorSystemName::ANAAQ4, DesignatorSystemName::ANAAQ7, DesignatorSystemName::ANAAQ8, DesignatorSystemName::ANAAQ14LANTIRN, DesignatorSystemName::ANAAQ19, DesignatorSystemName::ANAAQ22ASAFIRE, DesignatorSystemName::ANAAQ22BSAFIRELP, DesignatorSystemName::ANAAQ22CStarSAFIREI, DesignatorSystemName::ANAAQ22DBRITEStar, DesignatorSystemName::ANAAQ24DIRCMNemesis, DesignatorSystemName::ANAAQ25LTS, DesignatorSystemName::ANAAQ28LITENINGII, DesignatorSystemName::ANAAQ30, DesignatorSystemName::ANAAQ32, DesignatorSystemName::ANAAQ33Sniper, DesignatorSystemName::ANAAQ37, DesignatorSystemName::ANAAQ38, DesignatorSystemName::ANAAQ40, DesignatorSystemName::ANAAS32, DesignatorSystemName::ANAAS35V, DesignatorSystemName::ANAAS37, DesignatorSystemName::ANAAS38, DesignatorSystemName::ANAAS44, DesignatorSystemName::ANAAS46, DesignatorSystemName::ANAAS49, DesignatorSystemName::ANAAS51, DesignatorSystemName::ANAAS52MTSA, DesignatorSystemName::ANALQ10, DesignatorSystemName::ANASQ228, DesignatorSystemName::ANAVQ25, DesignatorSystemName::ANAVQ26, DesignatorSystemName::ANGVS5, DesignatorSystemName::ANPED1LLDR, DesignatorSystemName::TADSLRFD, DesignatorSystemName::MMSLRFD, DesignatorSystemName::AH1CNITE, DesignatorSystemName::MATES, DesignatorSystemName::TCV115, DesignatorSystemName::TIM, DesignatorSystemName::TMS303, DesignatorSystemName::TMY303, DesignatorSystemName::ALRAD, DesignatorSystemName::RFTDL, DesignatorSystemName::VVLR, DesignatorSystemName::P0705HELL, DesignatorSystemName::P0708PULSE, DesignatorSystemName::HELD, DesignatorSystemName::TYPE105, DesignatorSystemName::TYPE118, DesignatorSystemName::TYPE121, DesignatorSystemName::TYPE126, DesignatorSystemName::TYPE629, DesignatorSystemName::CLDS, DesignatorSystemName::TAV38, DesignatorSystemName::TMV630, DesignatorSystemName::ALTM1020, DesignatorSystemName::ALATS, DesignatorSystemName::DarkStarLAMPS, DesignatorSystemName::GLTDII, DesignatorSystemName::MBTELRF, DesignatorSystemName::MarkVII, DesignatorSystemName::SIREV, DesignatorSystemName::ANAAQ16B, DesignatorSystemName::ANAAQ16DAESOP, DesignatorSystemName::ANAAQ21StarSAFIREIII, DesignatorSystemName::ANAAQ22EBRITEStar, DesignatorSystemName::ANAAQ36StarSAFIREII, DesignatorSystemName::ANAAS38ANiteHawk, DesignatorSystemName::ANAAS38BNiteHawk, DesignatorSystemName::ANAAS44C, DesignatorSystemName::ANAAS53CSP, DesignatorSystemName::ANASQ28ATFLIR, DesignatorSystemName::ANDAS1MTSB, DesignatorSystemName::ANPAQ1LTD, DesignatorSystemName::ANPAQ3MULE, DesignatorSystemName::ANPEQ1SOFLAM, DesignatorSystemName::ANPEQ3, DesignatorSystemName::ANPEQ15ATPIAL, DesignatorSystemName::ANPEQ18IZLID1000P, DesignatorSystemName::ANTVQ2GVLLD, DesignatorSystemName::ANZSQ21EOS, DesignatorSystemName::ANZSQ22EOS, DesignatorSystemName::CIRCM, DesignatorSystemName::Guardian, DesignatorSystemName::IZLID200P, DesignatorSystemName::IZLID1000PW, DesignatorSystemName::MMS, DesignatorSystemName::MTADSPNVSArrowhead, DesignatorSystemName::RBS70, DesignatorSystemName::RBS90, DesignatorSystemName::TADSPNVS, DesignatorSystemName::COLIBRI, DesignatorSystemName::Damocles, DesignatorSystemName::I251Shkval, DesignatorSystemName::KPS53AVEOTS, DesignatorSystemName::StarSAFIRE380, DesignatorSystemName::JANUSTEOS, DesignatorSystemName::LOTHAREOS, DesignatorSystemName::MK46MOD1EOS, DesignatorSystemName::MTK201MEEOS, DesignatorSystemName::ThalesMiradorMk2EOS, DesignatorSystemName::TPN1M4923EOS];
static ALL_DESIGNATORCODE: &[DesignatorCode] = &[DesignatorCode::Other];
static ALL_UASTATECHANGEUPDATEINDICATOR: &[UAStateChangeUpdateIndicator] = &[UAStateChangeUpdateIndicator::StateUpdate, UAStateChangeUpdateIndicator::ChangedDataUpdate];
static ALL_UAACOUSTICSYSTEMNAME: &[UAAcousticSystemName] = &[UAAcousticSystemName::Other, UAAcousticSystemName::ANBQQ5, UAAcousticSystemName::ANSSQ62, UAAcousticSystemName::ANSQS23, UAAcousticSystemName::ANSQS26, UAAcousticSystemName::ANSQS53, UAAcousticSystemName::ALFS, UAAcousticSystemName::LFA, UAAcousticSystemName::ANAQS901, UAAcousticSystemName::ANAQS902];
static ALL_UAACOUSTICEMITTERSYSTEMFUNCTION: &[UAAcousticEmitterSystemFunction] = &[UAAcousticEmitterSystemFunction::Other, UAAcousticEmitterSystemFunction::Platformsearchdetecttrack, UAAcousticEmitterSystemFunction::Navigation, UAAcousticEmitterSystemFunction::Minehunting, UAAcousticEmitterSystemFunction::Weaponsearchdetecttrackdetect];
static ALL_UAPASSIVEPARAMETERINDEX: &[UAPassiveParameterIndex] = &[UAPassiveParameterIndex::Other];
static ALL_TRANSMITTERTRANSMITSTATE: &[TransmitterTransmitState] = &[TransmitterTransmitState::Off, TransmitterTransmitState::Onbutnottransmitting, TransmitterTransmitState::Onandtransmitting];
static ALL_TRANSMITTERINPUTSOURCE: &[TransmitterInputSource] = &[TransmitterInputSource::Other, TransmitterInputSource::Pilot, TransmitterInputSource::Copilot, TransmitterInputSource::FirstOfficer, TransmitterInputSource::Driver, TransmitterInputSource::Loader, TransmitterInputSource::Gunner, TransmitterInputSource::Commander, TransmitterInputSource::DigitalDataDevice, TransmitterInputSource::Intercom, TransmitterInputSource::AudioJammer, TransmitterInputSource::DataJammer, TransmitterInputSource::GPSJammer, TransmitterInputSource::GPSMeaconer, TransmitterInputSource::SATCOMUplinkJammer];
static ALL_TRANSMITTERCRYPTOSYSTEM: &[TransmitterCryptoSystem] = &[TransmitterCryptoSystem::NoEncryptionDevice, TransmitterCryptoSystem::KY28, TransmitterCryptoSystem::KY58, TransmitterCryptoSystem::NarrowSpectrumSecureVoice, TransmitterCryptoSystem::WideSpectrumSecureVoice, TransmitterCryptoSystem::SINCGARSICOM, TransmitterCryptoSystem::KY75, TransmitterCryptoSystem::KY100, TransmitterCryptoSystem::KY57, TransmitterCryptoSystem::KYV5, TransmitterCryptoSystem::Link11KG40AP, TransmitterCryptoSystem::Link11BKG40AS, TransmitterCryptoSystem::Link11KG40AR, TransmitterCryptoSystem::KGV135A, TransmitterCryptoSystem::TacticalSecureVoice];
static ALL_TRANSMITTERANTENNAPATTERNTYPE: &[TransmitterAntennaPatternType] = &[TransmitterAntennaPatternType::Isotropic, TransmitterAntennaPatternType::Beam, TransmitterAntennaPatternType::Sphericalharmonic, TransmitterAntennaPatternType::TransmitterRadiationVolume, TransmitterAntennaPatternType::BeamandTransmitterRadiationVolume, TransmitterAntennaPatternType::Omnidirectional];
static ALL_TRANSMITTERANTENNAPATTERNREFERENCESYSTEM: &[TransmitterAntennaPatternReferenceSystem] = &[TransmitterAntennaPatternReferenceSystem::WorldCoordinates, TransmitterAntennaPatternReferenceSystem::EntityCoordinates];
static ALL_SIGNALTDLTYPE: &[SignalTDLType] = &[SignalTDLType::Other, SignalTDLType::PADIL, SignalTDLType::NATOLink1, SignalTDLType::ATDL1, SignalTDLType::Link11B, SignalTDLType::SituationalAwarenessDataLink, SignalTDLType::Link16LegacyFormatJTIDSTADILJ, SignalTDLType::Link16LegacyFormatJTIDSFDLTADILJ, SignalTDLType::Link11, SignalTDLType::IJMS, SignalTDLType::Link4A, SignalTDLType::Link4C, SignalTDLType::TIBS, SignalTDLType::ATL, SignalTDLType::ConstantSource, SignalTDLType::AbbreviatedCommandandControl, SignalTDLType::MILSTAR, SignalTDLType::ATHS, SignalTDLType::OTHGOLD, SignalTDLType::TACELINT, SignalTDLType::WeaponsDataLink, SignalTDLType::AbbreviatedCommandandControl_, SignalTDLType::EnhancedPositionLocationReportingSystem, SignalTDLType::PositionLocationReportingSystem, SignalTDLType::SINCGARS, SignalTDLType::HAVEQUICKI, SignalTDLType::HAVEQUICKII, SignalTDLType::SATURN, SignalTDLType::IntraFlightDataLink1, SignalTDLType::IntraFlightDataLink2, SignalTDLType::ImprovedDataModem, SignalTDLType::AirForceApplicationProgramDevelopment, SignalTDLType::CooperativeEngagementCapability, SignalTDLType::ForwardAreaAirDefense, SignalTDLType::GroundBasedDataLink, SignalTDLType::IntraVehicularInfoSystem, SignalTDLType::MarineTacticalSystem, SignalTDLType::TacticalFireDirectionSystem, SignalTDLType::IntegratedBroadcastService, SignalTDLType::AirborneInformationTransfer, SignalTDLType::AdvancedTacticalAirborneReconnaissanceSystemDataLink, SignalTDLType::BattleGroupPassiveHorizonExtensionSystemDataLink, SignalTDLType::CommonHighBandwidthDataLink, SignalTDLType::GuardrailInteroperableDataLink, SignalTDLType::GuardrailCommonSensorSystemOneDataLink, SignalTDLType::GuardrailCommonSensorSystemTwoDataLink, SignalTDLType::GuardrailCSS2MultiRoleDataLink, SignalTDLType::GuardrailCSS2DirectAirtoSatelliteRelayDataLink, SignalTDLType::LineofSight, SignalTDLType::LightweightCDL, SignalTDLType::L52M, SignalTDLType::RivetReachRivetOwlDataLink, SignalTDLType::SeniorSpan, SignalTDLType::SeniorSpur, SignalTDLType::SeniorStretch_, SignalTDLType::SeniorYearInteroperableDataLink, SignalTDLType::SpaceCDL, SignalTDLType::TR1modeMISTAirborneDataLink, SignalTDLType::KubandSATCOMDataLinkImplementation, SignalTDLType::MissionEquipmentControlDatalink, SignalTDLType::RadarDataTransmittingSetDataLink, SignalTDLType::SurveillanceandControlDataLink, SignalTDLType::TacticalUAVVideo, SignalTDLType::UHFSATCOMDataLinkImplementation, SignalTDLType::TacticalCommonDataLink, SignalTDLType::LowLevelAirPictureInterface, SignalTDLType::WeaponsDataLinkAGM130, SignalTDLType::AutomaticIdentificationSystemAIS, SignalTDLType::WeaponsDataLinkAIM120, SignalTDLType::WeaponsDataLinkAIM9, SignalTDLType::WeaponsDataLinkCAMM, SignalTDLType::GC3, SignalTDLType::Link16StandardizedFormat, SignalTDLType::Link16EnhancedDataRate, SignalTDLType::JTIDSMIDSNetDataLoad, SignalTDLType::Link22, SignalTDLType::AFIWCIADSCommunicationsLinks, SignalTDLType::F22IntraFlightDataLink, SignalTDLType::LBandSATCOM, SignalTDLType::TSAFCommunicationsLink, SignalTDLType::EnhancedSINCGARS7_3, SignalTDLType::F35MultifunctionAdvancedDataLink, SignalTDLType::CursoronTarget, SignalTDLType::AllPurposeStructuredEurocontrolSurveillanceInformationExchange, SignalTDLType::VariableMessageFormat, SignalTDLType::Link16SurrogateforNonNATOTDL, SignalTDLType::MQ19CBandLOSUplink, SignalTDLType::MQ19CBandLOSDownlink, SignalTDLType::MQ19KuBandSATCOMUplink, SignalTDLType::MQ19KuBandSATCOMDownlink, SignalTDLType::WeaponsDatalinkSDBII, SignalTDLType::JTACSAUplink, SignalTDLType::CommonInteractiveBroadcast, SignalTDLType::JointRangeExtensionApplicationProtocolA, SignalTDLType::JPALSDataLink, SignalTDLType::OneSAFIADSCommunicationsLink, SignalTDLType::TacticalTargetingNetworkTechnologyApplication];
static ALL_RECEIVERRECEIVERSTATE: &[ReceiverReceiverState] = &[ReceiverReceiverState::Off, ReceiverReceiverState::Onbutnotreceiving, ReceiverReceiverState::Onandreceiving];
static ALL_INTERCOMCONTROLCONTROLTYPE: &[IntercomControlControlType] = &[IntercomControlControlType::Reserved, IntercomControlControlType::Status, IntercomControlControlType::RequestAcknowledgeRequired, IntercomControlControlType::RequestNoAcknowledge, IntercomControlControlType::AckRequestGranted, IntercomControlControlType::NackRequestDenied];
static ALL_INTERCOMCONTROLCOMMAND: &[IntercomControlCommand] = &[IntercomControlCommand::NoCommand, IntercomControlCommand::Status, IntercomControlCommand::Connect, IntercomControlCommand::Disconnect, IntercomControlCommand::Reset, IntercomControlCommand::On, IntercomControlCommand::Off];
static ALL_INTERCOMCONTROLTRANSMITLINESTATE: &[IntercomControlTransmitLineState] = &[IntercomControlTransmitLineState::TransmitLineStatenotapplicable, IntercomControlTransmitLineState::NotTransmitting, IntercomControlTransmitLineState::Transmitting];
static ALL_MINEFIELDSENSORTYPES: &[MinefieldSensorTypes] = &[MinefieldSensorTypes::Other, MinefieldSensorTypes::Optical, MinefieldSensorTypes::FLIR, MinefieldSensorTypes::RADAR, MinefieldSensorTypes::Magnetic, MinefieldSensorTypes::Laser, MinefieldSensorTypes::SONAR, MinefieldSensorTypes::Physical, MinefieldSensorTypes::Multispectral];
static ALL_AGGREGATESTATEAGGREGATESTATE: &[AggregateStateAggregateState] = &[AggregateStateAggregateState::Other, AggregateStateAggregateState::Aggregated, AggregateStateAggregateState::Disaggregated, AggregateStateAggregateState::Fullydisaggregated, AggregateStateAggregateState::Pseudodisaggregated, AggregateStateAggregateState::Partiallydisaggregated];
static ALL_AGGREGATESTATEFORMATION: &[AggregateStateFormation] = &[AggregateStateFormation::Other, AggregateStateFormation::Assembly, AggregateStateFormation::Vee, AggregateStateFormation::Wedge, AggregateStateFormation::Line, AggregateStateFormation::Column];
static ALL_ISGROUPOFGROUPEDENTITYCATEGORY: &[IsGroupOfGroupedEntityCategory] = &[IsGroupOfGroupedEntityCategory::Undefined, IsGroupOfGroupedEntityCategory::BasicGroundCombatVehicle, IsGroupOfGroupedEntityCategory::EnhancedGroundCombatVehicle, IsGroupOfGroupedEntityCategory::BasicGroundCombatSoldier, IsGroupOfGroupedEntityCategory::EnhancedGroundCombatSoldier, IsGroupOfGroupedEntityCategory::BasicRotorWingAircraft, IsGroupOfGroupedEntityCategory::EnhancedRotorWingAircraft, IsGroupOfGroupedEntityCategory::BasicFixedWingAircraft, IsGroupOfGroupedEntityCategory::EnhancedFixedWingAircraft, IsGroupOfGroupedEntityCategory::GroundLogisticsVehicle];
static ALL_TRANSFERCONTROLTRANSFERTYPE: &[TransferControlTransferType] = &[TransferControlTransferType::Other, TransferControlTransferType::PushTransferEntity, TransferControlTransferType::AutomaticPullTransferEntity, TransferControlTransferType::PushTransferEnvironmentalProcess, TransferControlTransferType::AutomaticPullTransferEnvironmentalProcess, TransferControlTransferType::CancelTransfer, TransferControlTransferType::ManualPullTransferEntity, TransferControlTransferType::ManualPullTransferEnvironmentalProcess, TransferControlTransferType::RemoveEntity];
static ALL_GRIDDEDDATACOORDINATESYSTEM: &[GriddedDataCoordinateSystem] = &[GriddedDataCoordinateSystem::RightHandedCartesian, GriddedDataCoordinateSystem::LeftHandedCartesian, GriddedDataCoordinateSystem::LatitudeLongitudeHeight, GriddedDataCoordinateSystem::LatitudeLongitudeDepth];
static ALL_GRIDDEDDATACONSTANTGRID: &[GriddedDataConstantGrid] = &[GriddedDataConstantGrid::Constantgrid, GriddedDataConstantGrid::Updatedgrid];
static ALL_GRIDDEDDATASAMPLETYPE: &[GriddedDataSampleType] = &[GriddedDataSampleType::NotSpecified];
static ALL_GRIDDEDDATADATAREPRESENTATION: &[GriddedDataDataRepresentation] = &[GriddedDataDataRepresentation::Type0, GriddedDataDataRepresentation::Type1, GriddedDataDataRepresentation::Type2];
static ALL_REPAIRGROUPS: &[RepairGroups] = &[RepairGroups::GeneralRepairCodes, RepairGroups::DriveTrain, RepairGroups::HullAirframeBody, RepairGroups::InterfacesWithEnvironment, RepairGroups::Weapons, RepairGroups::FuelSystems, RepairGroups::Electronics, RepairGroups::LifeSupportSystems, RepairGroups::HydraulicSystemsAndActuators, RepairGroups::AuxiliaryCraft];
static ALL_IOACTIONIOWARFARETYPE: &[IOActionIOWarfareType] = &[IOActionIOWarfareType::NoStatement, IOActionIOWarfareType::ElectronicWarfare, IOActionIOWarfareType::ComputerNetworkOperations, IOActionIOWarfareType::PsychologicalOperations, IOActionIOWarfareType::MilitaryDeception, IOActionIOWarfareType::OperationsSecurity, IOActionIOWarfareType::PhysicalAttack];
static ALL_IOACTIONIOSIMULATIONSOURCE: &[IOActionIOSimulationSource] = &[IOActionIOSimulationSource::NoStatement];
static ALL_IOACTIONIOACTIONTYPE: &[IOActionIOActionType] = &[IOActionIOActionType::NoStatement, IOActionIOActionType::IOAttackProfileData, IOActionIOActionType::IOAttackComputedEffects, IOActionIOActionType::IntentBasedEW, IOActionIOActionType::IntentBasedEWComputedEffects];
static ALL_IOACTIONIOACTIONPHASE: &[IOActionIOActionPhase] = &[IOActionIOActionPhase::NoStatement, IOActionIOActionPhase::StartAttackProfile, IOActionIOActionPhase::EndAttackProfile, IOActionIOActionPhase::ContinueAttackProfilewithChanges, IOActionIOActionPhase::StartAttackEffects, IOActionIOActionPhase::EndAttackedEffects, IOActionIOActionPhase::ContinueAttackEffectswithChanges];
static ALL_IOREPORTIOREPORTTYPE: &[IOReportIOReportType] = &[IOReportIOReportType::NoStatement, IOReportIOReportType::InitialReport, IOReportIOReportType::UpdateReport, IOReportIOReportType::FinalReport];
static ALL_DISATTRIBUTEACTIONCODE: &[DISAttributeActionCode] = &[DISAttributeActionCode::NoStatement];
static ALL_EEATTRIBUTESTATEINDICATOR: &[EEAttributeStateIndicator] = &[EEAttributeStateIndicator::HeartbeatUpdate, EEAttributeStateIndicator::ChangedData, EEAttributeStateIndicator::HasCeased];
static ALL_DEFIREPULSESHAPE: &[DEFirePulseShape] = &[DEFirePulseShape::Other, DEFirePulseShape::SquareWave, DEFirePulseShape::ContinuousWave, DEFirePulseShape::Gaussian];
static ALL_COMPONENTIDENTIFICATION: &[ComponentIdentification] = &[ComponentIdentification::EntityCenter, ComponentIdentification::EntityStructure, ComponentIdentification::ControlSystem, ComponentIdentification::ControlSurface, ComponentIdentification::EnginePropulsionSystem, ComponentIdentification::CrewMember, ComponentIdentification::Fuse, ComponentIdentification::AcquisitionSensor, ComponentIdentification::TrackingSensor, ComponentIdentification::FuelTankSolidRocketMotor];
static ALL_COMPONENTDAMAGESTATUS: &[ComponentDamageStatus] = &[ComponentDamageStatus::NoDamage, ComponentDamageStatus::MinorDamage, ComponentDamageStatus::MediumDamage, ComponentDamageStatus::MajorDamage, ComponentDamageStatus::Destroyed];
static ALL_COMPONENTVISUALSMOKECOLOR: &[ComponentVisualSmokeColor] = &[ComponentVisualSmokeColor::NoSmoke, ComponentVisualSmokeColor::White, ComponentVisualSmokeColor::Gray, ComponentVisualSmokeColor::Black];
static ALL_RECORDQUERYREVENTTYPE: &[RecordQueryREventType] = &[RecordQueryREventType::Periodic, RecordQueryREventType::InternalEntityStateData];
static ALL_MINEFIELDSTATEPROTOCOLMODE: &[MinefieldStateProtocolMode] = &[MinefieldStateProtocolMode::HeartbeatMode, MinefieldStateProtocolMode::QRPMode];
static ALL_GRIDAXISDESCRIPTORAXISTYPE: &[GridAxisDescriptorAxisType] = &[GridAxisDescriptorAxisType::RegularAxis, GridAxisDescriptorAxisType::IrregularAxis];
pub static ENUMS: &[EnumRow] = &[
  EnumRow { name: "ProtocolVersion", bits: 8, default: 7, codes: &[("Other", 0), ("DIS_PDUv1", 1), ("IEEE1278_1993", 2), ("DIS_PDUv2_Third_Draft", 3), ("DIS_PDUv2_Fourth_Draft_Revised", 4), ("IEEE1278_1_1995", 5), ("IEEE1278_1A_1998", 6), ("IEEE1278_1_2012", 7)], actual: || vec![ProtocolVersion::Other as u64, ProtocolVersion::DIS_PDUv1 as u64, ProtocolVersion::IEEE1278_1993 as u64, ProtocolVersion::DIS_PDUv2_Third_Draft as u64, ProtocolVersion::DIS_PDUv2_Fourth_Draft_Revised as u64, ProtocolVersion::IEEE1278_1_1995 as u64, ProtocolVersion::IEEE1278_1A_1998 as u64, ProtocolVersion::IEEE1278_1_2012 as u64], decode: |mut b| { let v = ProtocolVersion::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ProtocolVersion as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ProtocolVersion::Other, ProtocolVersion::DIS_PDUv1, ProtocolVersion::IEEE1278_1993, ProtocolVersion::DIS_PDUv2_Third_Draft, ProtocolVersion::DIS_PDUv2_Fourth_Draft_Revised, ProtocolVersion::IEEE1278_1_1995, ProtocolVersion::IEEE1278_1A_1998, ProtocolVersion::IEEE1278_1_2012], |v| v as u64), scan: None },
  EnumRow { name: "PduType", bits: 8, default: 0, codes: &[("Other", 0), ("EntityState", 1), ("Fire", 2), ("Detonation", 3), ("Collision", 4), ("ServiceRequest", 5), ("ResupplyOffer", 6), ("ResupplyReceived", 7), ("ResupplyCancel", 8), ("RepairComplete", 9), ("RepairResponse", 10), ("CreateEntity", 11), ("RemoveEntity", 12), ("StartResume", 13), ("StopFreeze", 14), ("Acknowledge", 15), ("ActionRequest", 16), ("ActionResponse", 17), ("DataQuery", 18), ("SetData", 19), ("Data", 20), ("EventReport", 21), ("Comment", 22), ("ElectromagneticEmission", 23), ("Designator", 24), ("Transmitter", 25), ("Signal", 26), ("Receiver", 27), ("IFF", 28), ("UnderwaterAcoustic", 29), ("SupplementalEmission", 30), ("IntercomSignal", 31), ("IntercomControl", 32), ("AggregateState", 33), ("IsGroupOf", 34), ("TransferOwnership", 35), ("IsPartOf", 36), ("MinefieldState", 37), ("MinefieldQuery", 38), ("MinefieldData", 39), ("MinefieldResponseNack", 40), ("EnvironmentalProcess", 41), ("GriddedData", 42), ("PointObjectState", 43), ("LinearObjectState", 44), ("ArealObjectState", 45), ("TimeSpacePositionInformation", 46), ("Appearance", 47), ("ArticulatedParts", 48), ("LiveEntityFire", 49), ("LiveEntityDetonation", 50), ("CreateEntityReliable", 51), ("RemoveEntityReliable", 52), ("StartResumeReliable", 53), ("StopFreezeReliable", 54), ("AcknowledgeReliable", 55), ("ActionRequestReliable", 56), ("ActionResponseReliable", 57), ("DataQueryReliable", 58), ("SetDataReliable", 59), ("DataReliable", 60), ("EventReportReliable", 61), ("CommentReliable", 62), ("RecordReliable", 63), ("SetRecordReliable", 64), ("RecordQueryReliable", 65), ("CollisionElastic", 66), ("EntityStateUpdate", 67), ("DirectedEnergyFire", 68), ("EntityDamageStatus", 69), ("InformationOperationsAction", 70), ("InformationOperationsReport", 71), ("Attribute", 72)], actual: || vec![PduType::Other as u64, PduType::EntityState as u64, PduType::Fire as u64, PduType::Detonation as u64, PduType::Collision as u64, PduType::ServiceRequest as u64, PduType::ResupplyOffer as u64, PduType::ResupplyReceived as u64, PduType::ResupplyCancel as u64, PduType::RepairComplete as u64, PduType::RepairResponse as u64, PduType::CreateEntity as u64, PduType::RemoveEntity as u64, PduType::StartResume as u64, PduType::StopFreeze as u64, PduType::Acknowledge as u64, PduType::ActionRequest as u64, PduType::ActionResponse as u64, PduType::DataQuery as u64, PduType::SetData as u64, PduType::Data as u64, PduType::EventReport as u64, PduType::Comment as u64, PduType::ElectromagneticEmission as u64, PduType::Designator as u64, PduType::Transmitter as u64, PduType::Signal as u64, PduType::Receiver as u64, PduType::IFF as u64, PduType::UnderwaterAcoustic as u64, PduType::SupplementalEmission as u64, PduType::IntercomSignal as u64, PduType::IntercomControl as u64, PduType::AggregateState as u64, PduType::IsGroupOf as u64, PduType::TransferOwnership as u64, PduType::IsPartOf as u64, PduType::MinefieldState as u64, PduType::MinefieldQuery as u64, PduType::MinefieldData as u64, PduType::MinefieldResponseNack as u64, PduType::EnvironmentalProcess as u64, PduType::GriddedData as u64, PduType::PointObjectState as u64, PduType::LinearObjectState as u64, PduType::ArealObjectState as u64, PduType::TimeSpacePositionInformation as u64, PduType::Appearance as u64, PduType::ArticulatedParts as u64, PduType::LiveEntityFire as u64, PduType::LiveEntityDetonation as u64, PduType::CreateEntityReliable as u64, PduType::RemoveEntityReliable as u64, PduType::StartResumeReliable as u64, PduType::StopFreezeReliable as u64, PduType::AcknowledgeReliable as u64, PduType::ActionRequestReliable as u64, PduType::ActionResponseReliable as u64, PduType::DataQueryReliable as u64, PduType::SetDataReliable as u64, PduType::DataReliable as u64, PduType::EventReportReliable as u64, PduType::CommentReliable as u64, PduType::RecordReliable as u64, PduType::SetRecordReliable as u64, PduType::RecordQueryReliable as u64, PduType::CollisionElastic as u64, PduType::EntityStateUpdate as u64, PduType::DirectedEnergyFire as u64, PduType::EntityDamageStatus as u64, PduType::InformationOperationsAction as u64, PduType::InformationOperationsReport as u64, PduType::Attribute as u64], decode: |mut b| { let v = PduType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PduType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PduType::Other, PduType::EntityState, PduType::Fire, PduType::Detonation, PduType::Collision, PduType::ServiceRequest, PduType::ResupplyOffer, PduType::ResupplyReceived, PduType::ResupplyCancel, PduType::RepairComplete, PduType::RepairResponse, PduType::CreateEntity, PduType::RemoveEntity, PduType::StartResume, PduType::StopFreeze, PduType::Acknowledge, PduType::ActionRequest, PduType::ActionResponse, PduType::DataQuery, PduType::SetData, PduType::Data, PduType::EventReport, PduType::Comment, PduType::ElectromagneticEmission, PduType::Designator, PduType::Transmitter, PduType::Signal, PduType::Receiver, PduType::IFF, PduType::UnderwaterAcoustic, PduType::SupplementalEmission, PduType::IntercomSignal, PduType::IntercomControl, PduType::AggregateState, PduType::IsGroupOf, PduType::TransferOwnership, PduType::IsPartOf, PduType::MinefieldState, PduType::MinefieldQuery, PduType::MinefieldData, PduType::MinefieldResponseNack, PduType::EnvironmentalProcess, PduType::GriddedData, PduType::PointObjectState, PduType::LinearObjectState, PduType::ArealObjectState, PduType::TimeSpacePositionInformation, PduType::Appearance, PduType::ArticulatedParts, PduType::LiveEntityFire, PduType::LiveEntityDetonation, PduType::CreateEntityReliable, PduType::RemoveEntityReliable, PduType::StartResumeReliable, PduType::StopFreezeReliable, PduType::AcknowledgeReliable, PduType::ActionRequestReliable, PduType::ActionResponseReliable, PduType::DataQueryReliable, PduType::SetDataReliable, PduType::DataReliable, PduType::EventReportReliable, PduType::CommentReliable, PduType::RecordReliable, PduType::SetRecordReliable, PduType::RecordQueryReliable, PduType::CollisionElastic, PduType::EntityStateUpdate, PduType::DirectedEnergyFire, PduType::EntityDamageStatus, PduType::InformationOperationsAction, PduType::InformationOperationsReport, PduType::Attribute], |v| v as u64), scan: None },
  EnumRow { name: "ProtocolFamily", bits: 8, default: 0, codes: &[("Other", 0), ("EntityInformation", 1), ("Warfare", 2), ("Logistics", 3), ("RadioCommunications", 4), ("SimulationManagement", 5), ("DistributedEmissionRegeneration", 6), ("EntityManagement", 7), ("Minefield", 8), ("SyntheticEnvironment", 9), ("SimulationManagementWithReliability", 10), ("LiveEntityInformationInteraction", 11), ("NonRealTime", 12), ("InformationOperations", 13)], actual: || vec![ProtocolFamily::Other as u64, ProtocolFamily::EntityInformation as u64, ProtocolFamily::Warfare as u64, ProtocolFamily::Logistics as u64, ProtocolFamily::RadioCommunications as u64, ProtocolFamily::SimulationManagement as u64, ProtocolFamily::DistributedEmissionRegeneration as u64, ProtocolFamily::EntityManagement as u64, ProtocolFamily::Minefield as u64, ProtocolFamily::SyntheticEnvironment as u64, ProtocolFamily::SimulationManagementWithReliability as u64, ProtocolFamily::LiveEntityInformationInteraction as u64, ProtocolFamily::NonRealTime as u64, ProtocolFamily::InformationOperations as u64], decode: |mut b| { let v = ProtocolFamily::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ProtocolFamily as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ProtocolFamily::Other, ProtocolFamily::EntityInformation, ProtocolFamily::Warfare, ProtocolFamily::Logistics, ProtocolFamily::RadioCommunications, ProtocolFamily::SimulationManagement, ProtocolFamily::DistributedEmissionRegeneration, ProtocolFamily::EntityManagement, ProtocolFamily::Minefield, ProtocolFamily::SyntheticEnvironment, ProtocolFamily::SimulationManagementWithReliability, ProtocolFamily::LiveEntityInformationInteraction, ProtocolFamily::NonRealTime, ProtocolFamily::InformationOperations], |v| v as u64), scan: None },
  EnumRow { name: "ForceId", bits: 8, default: 0, codes: &[("Other", 0), ("Friendly", 1), ("Opposing", 2), ("Neutral", 3), ("Friendly2", 4), ("Opposing2", 5), ("Neutral2", 6), ("Friendly3", 7), ("Opposing3", 8), ("Neutral3", 9), ("Friendly4", 10), ("Opposing4", 11), ("Neutral4", 12), ("Friendly5", 13), ("Opposing5", 14), ("Neutral5", 15), ("Friendly6", 16), ("Opposing6", 17), ("Neutral6", 18), ("Friendly7", 19), ("Opposing7", 20), ("Neutral7", 21), ("Friendly8", 22), ("Opposing8", 23), ("Neutral8", 24), ("Friendly9", 25), ("Opposing9", 26), ("Neutral9", 27), ("Friendly10", 28), ("Opposing10", 29), ("Neutral10", 30)], actual: || vec![ForceId::Other as u64, ForceId::Friendly as u64, ForceId::Opposing as u64, ForceId::Neutral as u64, ForceId::Friendly2 as u64, ForceId::Opposing2 as u64, ForceId::Neutral2 as u64, ForceId::Friendly3 as u64, ForceId::Opposing3 as u64, ForceId::Neutral3 as u64, ForceId::Friendly4 as u64, ForceId::Opposing4 as u64, ForceId::Neutral4 as u64, ForceId::Friendly5 as u64, ForceId::Opposing5 as u64, ForceId::Neutral5 as u64, ForceId::Friendly6 as u64, ForceId::Opposing6 as u64, ForceId::Neutral6 as u64, ForceId::Friendly7 as u64, ForceId::Opposing7 as u64, ForceId::Neutral7 as u64, ForceId::Friendly8 as u64, ForceId::Opposing8 as u64, ForceId::Neutral8 as u64, ForceId::Friendly9 as u64, ForceId::Opposing9 as u64, ForceId::Neutral9 as u64, ForceId::Friendly10 as u64, ForceId::Opposing10 as u64, ForceId::Neutral10 as u64], decode: |mut b| { let v = ForceId::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ForceId as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_FORCEID[i], b), |mut b| <ForceId as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_FORCEID[i]))), pairs: || crate::core::pairs(&[ForceId::Other, ForceId::Friendly, ForceId::Opposing, ForceId::Neutral, ForceId::Friendly2, ForceId::Opposing2, ForceId::Neutral2, ForceId::Friendly3, ForceId::Opposing3, ForceId::Neutral3, ForceId::Friendly4, ForceId::Opposing4, ForceId::Neutral4, ForceId::Friendly5, ForceId::Opposing5, ForceId::Neutral5, ForceId::Friendly6, ForceId::Opposing6, ForceId::Neutral6, ForceId::Friendly7, ForceId::Opposing7, ForceId::Neutral7, ForceId::Friendly8, ForceId::Opposing8, ForceId::Neutral8, ForceId::Friendly9, ForceId::Opposing9, ForceId::Neutral9, ForceId::Friendly10, ForceId::Opposing10, ForceId::Neutral10], |v| v as u64), scan: None },
  EnumRow { name: "EntityKind", bits: 8, default: 0, codes: &[("Other", 0), ("Platform", 1), ("Munition", 2), ("LifeForm", 3), ("Environmental", 4), ("CulturalFeature", 5), ("Supply", 6), ("Radio", 7), ("Expendable", 8), ("SensorEmitter", 9)], actual: || vec![EntityKind::Other as u64, EntityKind::Platform as u64, EntityKind::Munition as u64, EntityKind::LifeForm as u64, EntityKind::Environmental as u64, EntityKind::CulturalFeature as u64, EntityKind::Supply as u64, EntityKind::Radio as u64, EntityKind::Expendable as u64, EntityKind::SensorEmitter as u64], decode: |mut b| { let v = EntityKind::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EntityKind as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EntityKind::Other, EntityKind::Platform, EntityKind::Munition, EntityKind::LifeForm, EntityKind::Environmental, EntityKind::CulturalFeature, EntityKind::Supply, EntityKind::Radio, EntityKind::Expendable, EntityKind::SensorEmitter], |v| v as u64), scan: None },
  EnumRow { name: "OtherKinds", bits: 8, default: 0, codes: &[("Other", 0), ("Land", 1), ("Air", 2), ("Surface", 3), ("Subsurface", 4), ("Space", 5)], actual: || vec![OtherKinds::Other as u64, OtherKinds::Land as u64, OtherKinds::Air as u64, OtherKinds::Surface as u64, OtherKinds::Subsurface as u64, OtherKinds::Space as u64], decode: |mut b| { let v = OtherKinds::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <OtherKinds as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[OtherKinds::Other, OtherKinds::Land, OtherKinds::Air, OtherKinds::Surface, OtherKinds::Subsurface, OtherKinds::Space], |v| v as u64), scan: None },
  EnumRow { name: "LandDomainCategories", bits: 8, default: 0, codes: &[("Other", 0), ("Tank", 1), ("ArmoredFightingVehicle", 2), ("ArmoredUtilityVehicle", 3), ("SelfPropelledArtillery", 4), ("TowedArtillery", 5), ("SmallWheeledUtilityVehicle", 6), ("LargeWheeledUtilityVehicle", 7), ("SmallTrackedUtilityVehicle", 8), ("LargeTrackedUtilityVehicle", 9), ("Mortar", 10), ("MinePlow", 11), ("MineRake", 12), ("MineRoller", 13), ("CargoTrailer", 14), ("FuelTrailer", 15), ("GeneratorTrailer", 16), ("WaterTrailer", 17), ("EngineerEquipment", 18), ("HeavyEquipmentTransportTrailer", 19), ("MaintenanceEquipmentTrailer", 20), ("Limber", 21), ("ChemicalDecontaminationTrailer", 22), ("WarningSystem", 23), ("TrainEngine", 24), ("TrainCar", 25), ("TrainCaboose", 26), ("CivilianVehicle", 27), ("AirDefenseMissileDefenseUnitEquipment", 28), ("C3ISystem", 29), ("OperationsFacility", 30), ("IntelligenceFacility", 31), ("SurveillanceFacility", 32), ("CommunicationsFacility", 33), ("CommandFacility", 34), ("C4IFacility", 35), ("ControlFacility", 36), ("FireControlFacility", 37), ("MissileDefenseFacility", 38), ("FieldCommandPost", 39), ("ObservationPost", 40), ("MineFlail", 41), ("Unmanned", 50), ("Motorcycle", 80), ("Car", 81), ("Bus", 82), ("SingleUnitCargoTruck", 83), ("SingleUnitUtilityEmergencyTruck", 84), ("MultipleUnitCargoTruck", 85), ("MultipleUnitUtilityEmergencyTruck", 86), ("ConstructionSpecialtyVehicle", 87), ("FarmSpecialtyVehicle", 88), ("Trailer", 89), ("Recreational", 90), ("NonMotorized", 91), ("Trains", 92), ("UtilityEmergencyCar", 93)], actual: || vec![LandDomainCategories::Other as u64, LandDomainCategories::Tank as u64, LandDomainCategories::ArmoredFightingVehicle as u64, LandDomainCategories::ArmoredUtilityVehicle as u64, LandDomainCategories::SelfPropelledArtillery as u64, LandDomainCategories::TowedArtillery as u64, LandDomainCategories::SmallWheeledUtilityVehicle as u64, LandDomainCategories::LargeWheeledUtilityVehicle as u64, LandDomainCategories::SmallTrackedUtilityVehicle as u64, LandDomainCategories::LargeTrackedUtilityVehicle as u64, LandDomainCategories::Mortar as u64, LandDomainCategories::MinePlow as u64, LandDomainCategories::MineRake as u64, LandDomainCategories::MineRoller as u64, LandDomainCategories::CargoTrailer as u64, LandDomainCategories::FuelTrailer as u64, LandDomainCategories::GeneratorTrailer as u64, LandDomainCategories::WaterTrailer as u64, LandDomainCategories::EngineerEquipment as u64, LandDomainCategories::HeavyEquipmentTransportTrailer as u64, LandDomainCategories::MaintenanceEquipmentTrailer as u64, LandDomainCategories::Limber as u64, LandDomainCategories::ChemicalDecontaminationTrailer as u64, LandDomainCategories::WarningSystem as u64, LandDomainCategories::TrainEngine as u64, LandDomainCategories::TrainCar as u64, LandDomainCategories::TrainCaboose as u64, LandDomainCategories::CivilianVehicle as u64, LandDomainCategories::AirDefenseMissileDefenseUnitEquipment as u64, LandDomainCategories::C3ISystem as u64, LandDomainCategories::OperationsFacility as u64, LandDomainCategories::IntelligenceFacility as u64, LandDomainCategories::SurveillanceFacility as u64, LandDomainCategories::CommunicationsFacility as u64, LandDomainCategories::CommandFacility as u64, LandDomainCategories::C4IFacility as u64, LandDomainCategories::ControlFacility as u64, LandDomainCategories::FireControlFacility as u64, LandDomainCategories::MissileDefenseFacility as u64, LandDomainCategories::FieldCommandPost as u64, LandDomainCategories::ObservationPost as u64, LandDomainCategories::MineFlail as u64, LandDomainCategories::Unmanned as u64, LandDomainCategories::Motorcycle as u64, LandDomainCategories::Car as u64, LandDomainCategories::Bus as u64, LandDomainCategories::SingleUnitCargoTruck as u64, LandDomainCategories::SingleUnitUtilityEmergencyTruck as u64, LandDomainCategories::MultipleUnitCargoTruck as u64, LandDomainCategories::MultipleUnitUtilityEmergencyTruck as u64, LandDomainCategories::ConstructionSpecialtyVehicle as u64, LandDomainCategories::FarmSpecialtyVehicle as u64, LandDomainCategories::Trailer as u64, LandDomainCategories::Recreational as u64, LandDomainCategories::NonMotorized as u64, LandDomainCategories::Trains as u64, LandDomainCategories::UtilityEmergencyCar as u64], decode: |mut b| { let v = LandDomainCategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LandDomainCategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LandDomainCategories::Other, LandDomainCategories::Tank, LandDomainCategories::ArmoredFightingVehicle, LandDomainCategories::ArmoredUtilityVehicle, LandDomainCategories::SelfPropelledArtillery, LandDomainCategories::TowedArtillery, LandDomainCategories::SmallWheeledUtilityVehicle, LandDomainCategories::LargeWheeledUtilityVehicle, LandDomainCategories::SmallTrackedUtilityVehicle, LandDomainCategories::LargeTrackedUtilityVehicle, LandDomainCategories::Mortar, LandDomainCategories::MinePlow, LandDomainCategories::MineRake, LandDomainCategories::MineRoller, LandDomainCategories::CargoTrailer, LandDomainCategories::FuelTrailer, LandDomainCategories::GeneratorTrailer, LandDomainCategories::WaterTrailer, LandDomainCategories::EngineerEquipment, LandDomainCategories::HeavyEquipmentTransportTrailer, LandDomainCategories::MaintenanceEquipmentTrailer, LandDomainCategories::Limber, LandDomainCategories::ChemicalDecontaminationTrailer, LandDomainCategories::WarningSystem, LandDomainCategories::TrainEngine, LandDomainCategories::TrainCar, LandDomainCategories::TrainCaboose, LandDomainCategories::CivilianVehicle, LandDomainCategories::AirDefenseMissileDefenseUnitEquipment, LandDomainCategories::C3ISystem, LandDomainCategories::OperationsFacility, LandDomainCategories::IntelligenceFacility, LandDomainCategories::SurveillanceFacility, LandDomainCategories::CommunicationsFacility, LandDomainCategories::CommandFacility, LandDomainCategories::C4IFacility, LandDomainCategories::ControlFacility, LandDomainCategories::FireControlFacility, LandDomainCategories::MissileDefenseFacility, LandDomainCategories::FieldCommandPost, LandDomainCategories::ObservationPost, LandDomainCategories::MineFlail, LandDomainCategories::Unmanned, LandDomainCategories::Motorcycle, LandDomainCategories::Car, LandDomainCategories::Bus, LandDomainCategories::SingleUnitCargoTruck, LandDomainCategories::SingleUnitUtilityEmergencyTruck, LandDomainCategories::MultipleUnitCargoTruck, LandDomainCategories::MultipleUnitUtilityEmergencyTruck, LandDomainCategories::ConstructionSpecialtyVehicle, LandDomainCategories::FarmSpecialtyVehicle, LandDomainCategories::Trailer, LandDomainCategories::Recreational, LandDomainCategories::NonMotorized, LandDomainCategories::Trains, LandDomainCategories::UtilityEmergencyCar], |v| v as u64), scan: None },
  EnumRow { name: "AirDomainCategories", bits: 8, default: 0, codes: &[("Other", 0), ("FighterAirDefense", 1), ("AttackStrike", 2), ("Bomber", 3), ("CargoTanker", 4), ("ASWPatrolObservation", 5), ("ElectronicWarfare", 6), ("Reconnaissance", 7), ("SurveillanceC2", 8), ("AirSeaRescue", 9), ("AttackHelicopter", 20), ("UtilityHelicopter", 21), ("AntiSubmarineWarfarePatrolHelicopter", 22), ("CargoHelicopter", 23), ("ObservationHelicopter", 24), ("SpecialOperationsHelicopter", 25), ("TrainingHelicopter", 26), ("Trainer", 40), ("Unmanned", 50), ("NonCombatantCommercialAircraft", 57), ("CivilianUltralightAircraftNonrigidWing", 80), ("CivilianUltralightAircraftRigidWing", 81), ("CivilianFixedWingAircraftGlider", 83), ("CivilianFixedWingAircraftLightSport", 84), ("CivilianFixedWingAircraftSmall", 85), ("CivilianFixedWingAircraftMedium", 86), ("CivilianFixedWingAircraftLarge", 87), ("CivilianFixedWingAircraftHeavy", 88), ("CivilianHelicopterSmall", 90), ("CivilianHelicopterMedium", 91), ("CivilianHelicopterLarge", 92), ("CivilianAutogyro", 93), ("CivilianLighterthanAirBalloon", 100), ("CivilianLighterthanAirAirship", 101)], actual: || vec![AirDomainCategories::Other as u64, AirDomainCategories::FighterAirDefense as u64, AirDomainCategories::AttackStrike as u64, AirDomainCategories::Bomber as u64, AirDomainCategories::CargoTanker as u64, AirDomainCategories::ASWPatrolObservation as u64, AirDomainCategories::ElectronicWarfare as u64, AirDomainCategories::Reconnaissance as u64, AirDomainCategories::SurveillanceC2 as u64, AirDomainCategories::AirSeaRescue as u64, AirDomainCategories::AttackHelicopter as u64, AirDomainCategories::UtilityHelicopter as u64, AirDomainCategories::AntiSubmarineWarfarePatrolHelicopter as u64, AirDomainCategories::CargoHelicopter as u64, AirDomainCategories::ObservationHelicopter as u64, AirDomainCategories::SpecialOperationsHelicopter as u64, AirDomainCategories::TrainingHelicopter as u64, AirDomainCategories::Trainer as u64, AirDomainCategories::Unmanned as u64, AirDomainCategories::NonCombatantCommercialAircraft as u64, AirDomainCategories::CivilianUltralightAircraftNonrigidWing as u64, AirDomainCategories::CivilianUltralightAircraftRigidWing as u64, AirDomainCategories::CivilianFixedWingAircraftGlider as u64, AirDomainCategories::CivilianFixedWingAircraftLightSport as u64, AirDomainCategories::CivilianFixedWingAircraftSmall as u64, AirDomainCategories::CivilianFixedWingAircraftMedium as u64, AirDomainCategories::CivilianFixedWingAircraftLarge as u64, AirDomainCategories::CivilianFixedWingAircraftHeavy as u64, AirDomainCategories::CivilianHelicopterSmall as u64, AirDomainCategories::CivilianHelicopterMedium as u64, AirDomainCategories::CivilianHelicopterLarge as u64, AirDomainCategories::CivilianAutogyro as u64, AirDomainCategories::CivilianLighterthanAirBalloon as u64, AirDomainCategories::CivilianLighterthanAirAirship as u64], decode: |mut b| { let v = AirDomainCategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AirDomainCategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AirDomainCategories::Other, AirDomainCategories::FighterAirDefense, AirDomainCategories::AttackStrike, AirDomainCategories::Bomber, AirDomainCategories::CargoTanker, AirDomainCategories::ASWPatrolObservation, AirDomainCategories::ElectronicWarfare, AirDomainCategories::Reconnaissance, AirDomainCategories::SurveillanceC2, AirDomainCategories::AirSeaRescue, AirDomainCategories::AttackHelicopter, AirDomainCategories::UtilityHelicopter, AirDomainCategories::AntiSubmarineWarfarePatrolHelicopter, AirDomainCategories::CargoHelicopter, AirDomainCategories::ObservationHelicopter, AirDomainCategories::SpecialOperationsHelicopter, AirDomainCategories::TrainingHelicopter, AirDomainCategories::Trainer, AirDomainCategories::Unmanned, AirDomainCategories::NonCombatantCommercialAircraft, AirDomainCategories::CivilianUltralightAircraftNonrigidWing, AirDomainCategories::CivilianUltralightAircraftRigidWing, AirDomainCategories::CivilianFixedWingAircraftGlider, AirDomainCategories::CivilianFixedWingAircraftLightSport, AirDomainCategories::CivilianFixedWingAircraftSmall, AirDomainCategories::CivilianFixedWingAircraftMedium, AirDomainCategories::CivilianFixedWingAircraftLarge, AirDomainCategories::CivilianFixedWingAircraftHeavy, AirDomainCategories::CivilianHelicopterSmall, AirDomainCategories::CivilianHelicopterMedium, AirDomainCategories::CivilianHelicopterLarge, AirDomainCategories::CivilianAutogyro, AirDomainCategories::CivilianLighterthanAirBalloon, AirDomainCategories::CivilianLighterthanAirAirship], |v| v as u64), scan: None },
  EnumRow { name: "SurfaceDomainCategories", bits: 8, default: 0, codes: &[("Other", 0), ("Carrier", 1), ("CommandShipCruiser", 2), ("GuidedMissileCruiser", 3), ("GuidedMissileDestroyer", 4), ("Destroyer", 5), ("GuidedMissileFrigate", 6), ("LightPatrolCraft", 7), ("MineCountermeasureShipCraft", 8), ("DockLandingShip", 9), ("TankLandingShip", 10), ("LandingCraft", 11), ("LightCarrier", 12), ("CruiserHelicopterCarrier", 13), ("Hydrofoil", 14), ("AirCushionSurfaceEffect", 15), ("Auxiliary", 16), ("AuxiliaryMerchantMarine", 17), ("Utility", 18), ("UnmannedSurfaceVehicle", 19), ("LittoralCombatShips", 20), ("SurveillanceShip", 21), ("Frigate", 50), ("Battleship", 51), ("HeavyCruiser", 52), ("DestroyerTender", 53), ("AmphibiousAssaultShip", 54), ("AmphibiousCargoShip", 55), ("AmphibiousTransportDock", 56), ("AmmunitionShip", 57), ("CombatStoresShip", 58), ("SurveillanceTowedArraySonarSystem", 59), ("FastCombatSupportShip", 60), ("NonCombatantShip", 61), ("CoastGuardCutters", 62), ("CoastGuardBoats", 63), ("FastAttackCraft", 64), ("InflatableBoat", 65), ("PassengerVessel", 80), ("DryCargoShip", 81), ("Tanker", 82), ("OffshoreSupportVessel", 83), ("PrivateMotorboat", 84), ("PrivateSailboat", 85), ("FishingVessel", 86), ("OtherVessels", 87), ("SearchandRescueVessels", 100), ("LifeSavingEquipment", 101)], actual: || vec![SurfaceDomainCategories::Other as u64, SurfaceDomainCategories::Carrier as u64, SurfaceDomainCategories::CommandShipCruiser as u64, SurfaceDomainCategories::GuidedMissileCruiser as u64, SurfaceDomainCategories::GuidedMissileDestroyer as u64, SurfaceDomainCategories::Destroyer as u64, SurfaceDomainCategories::GuidedMissileFrigate as u64, SurfaceDomainCategories::LightPatrolCraft as u64, SurfaceDomainCategories::MineCountermeasureShipCraft as u64, SurfaceDomainCategories::DockLandingShip as u64, SurfaceDomainCategories::TankLandingShip as u64, SurfaceDomainCategories::LandingCraft as u64, SurfaceDomainCategories::LightCarrier as u64, SurfaceDomainCategories::CruiserHelicopterCarrier as u64, SurfaceDomainCategories::Hydrofoil as u64, SurfaceDomainCategories::AirCushionSurfaceEffect as u64, SurfaceDomainCategories::Auxiliary as u64, SurfaceDomainCategories::AuxiliaryMerchantMarine as u64, SurfaceDomainCategories::Utility as u64, SurfaceDomainCategories::UnmannedSurfaceVehicle as u64, SurfaceDomainCategories::LittoralCombatShips as u64, SurfaceDomainCategories::SurveillanceShip as u64, SurfaceDomainCategories::Frigate as u64, SurfaceDomainCategories::Battleship as u64, SurfaceDomainCategories::HeavyCruiser as u64, SurfaceDomainCategories::DestroyerTender as u64, SurfaceDomainCategories::AmphibiousAssaultShip as u64, SurfaceDomainCategories::AmphibiousCargoShip as u64, SurfaceDomainCategories::AmphibiousTransportDock as u64, SurfaceDomainCategories::AmmunitionShip as u64, SurfaceDomainCategories::CombatStoresShip as u64, SurfaceDomainCategories::SurveillanceTowedArraySonarSystem as u64, SurfaceDomainCategories::FastCombatSupportShip as u64, SurfaceDomainCategories::NonCombatantShip as u64, SurfaceDomainCategories::CoastGuardCutters as u64, SurfaceDomainCategories::CoastGuardBoats as u64, SurfaceDomainCategories::FastAttackCraft as u64, SurfaceDomainCategories::InflatableBoat as u64, SurfaceDomainCategories::PassengerVessel as u64, SurfaceDomainCategories::DryCargoShip as u64, SurfaceDomainCategories::Tanker as u64, SurfaceDomainCategories::OffshoreSupportVessel as u64, SurfaceDomainCategories::PrivateMotorboat as u64, SurfaceDomainCategories::PrivateSailboat as u64, SurfaceDomainCategories::FishingVessel as u64, SurfaceDomainCategories::OtherVessels as u64, SurfaceDomainCategories::SearchandRescueVessels as u64, SurfaceDomainCategories::LifeSavingEquipment as u64], decode: |mut b| { let v = SurfaceDomainCategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SurfaceDomainCategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SurfaceDomainCategories::Other, SurfaceDomainCategories::Carrier, SurfaceDomainCategories::CommandShipCruiser, SurfaceDomainCategories::GuidedMissileCruiser, SurfaceDomainCategories::GuidedMissileDestroyer, SurfaceDomainCategories::Destroyer, SurfaceDomainCategories::GuidedMissileFrigate, SurfaceDomainCategories::LightPatrolCraft, SurfaceDomainCategories::MineCountermeasureShipCraft, SurfaceDomainCategories::DockLandingShip, SurfaceDomainCategories::TankLandingShip, SurfaceDomainCategories::LandingCraft, SurfaceDomainCategories::LightCarrier, SurfaceDomainCategories::CruiserHelicopterCarrier, SurfaceDomainCategories::Hydrofoil, SurfaceDomainCategories::AirCushionSurfaceEffect, SurfaceDomainCategories::Auxiliary, SurfaceDomainCategories::AuxiliaryMerchantMarine, SurfaceDomainCategories::Utility, SurfaceDomainCategories::UnmannedSurfaceVehicle, SurfaceDomainCategories::LittoralCombatShips, SurfaceDomainCategories::SurveillanceShip, SurfaceDomainCategories::Frigate, SurfaceDomainCategories::Battleship, SurfaceDomainCategories::HeavyCruiser, SurfaceDomainCategories::DestroyerTender, SurfaceDomainCategories::AmphibiousAssaultShip, SurfaceDomainCategories::AmphibiousCargoShip, SurfaceDomainCategories::AmphibiousTransportDock, SurfaceDomainCategories::AmmunitionShip, SurfaceDomainCategories::CombatStoresShip, SurfaceDomainCategories::SurveillanceTowedArraySonarSystem, SurfaceDomainCategories::FastCombatSupportShip, SurfaceDomainCategories::NonCombatantShip, SurfaceDomainCategories::CoastGuardCutters, SurfaceDomainCategories::CoastGuardBoats, SurfaceDomainCategories::FastAttackCraft, SurfaceDomainCategories::InflatableBoat, SurfaceDomainCategories::PassengerVessel, SurfaceDomainCategories::DryCargoShip, SurfaceDomainCategories::Tanker, SurfaceDomainCategories::OffshoreSupportVessel, SurfaceDomainCategories::PrivateMotorboat, SurfaceDomainCategories::PrivateSailboat, SurfaceDomainCategories::FishingVessel, SurfaceDomainCategories::OtherVessels, SurfaceDomainCategories::SearchandRescueVessels, SurfaceDomainCategories::LifeSavingEquipment], |v| v as u64), scan: None },
  EnumRow { name: "SubsurfaceDomainCategories", bits: 8, default: 0, codes: &[("Other", 0), ("SSBN", 1), ("SSGN", 2), ("SSN", 3), ("SSG", 4), ("SS", 5), ("SSAN", 6), ("SSA", 7), ("UnmannedUnderwaterVehicle", 8), ("SSB", 9), ("SSC", 10), ("SSP", 11), ("SSM", 12), ("SSNR", 13), ("SST", 14), ("AGSS", 15), ("SemiSubmersibleBoats", 16), ("CivilianSubmarines", 80), ("CivilianSubmersibles", 81), ("CivilianSemiSubmersibleBoats", 82)], actual: || vec![SubsurfaceDomainCategories::Other as u64, SubsurfaceDomainCategories::SSBN as u64, SubsurfaceDomainCategories::SSGN as u64, SubsurfaceDomainCategories::SSN as u64, SubsurfaceDomainCategories::SSG as u64, SubsurfaceDomainCategories::SS as u64, SubsurfaceDomainCategories::SSAN as u64, SubsurfaceDomainCategories::SSA as u64, SubsurfaceDomainCategories::UnmannedUnderwaterVehicle as u64, SubsurfaceDomainCategories::SSB as u64, SubsurfaceDomainCategories::SSC as u64, SubsurfaceDomainCategories::SSP as u64, SubsurfaceDomainCategories::SSM as u64, SubsurfaceDomainCategories::SSNR as u64, SubsurfaceDomainCategories::SST as u64, SubsurfaceDomainCategories::AGSS as u64, SubsurfaceDomainCategories::SemiSubmersibleBoats as u64, SubsurfaceDomainCategories::CivilianSubmarines as u64, SubsurfaceDomainCategories::CivilianSubmersibles as u64, SubsurfaceDomainCategories::CivilianSemiSubmersibleBoats as u64], decode: |mut b| { let v = SubsurfaceDomainCategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubsurfaceDomainCategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubsurfaceDomainCategories::Other, SubsurfaceDomainCategories::SSBN, SubsurfaceDomainCategories::SSGN, SubsurfaceDomainCategories::SSN, SubsurfaceDomainCategories::SSG, SubsurfaceDomainCategories::SS, SubsurfaceDomainCategories::SSAN, SubsurfaceDomainCategories::SSA, SubsurfaceDomainCategories::UnmannedUnderwaterVehicle, SubsurfaceDomainCategories::SSB, SubsurfaceDomainCategories::SSC, SubsurfaceDomainCategories::SSP, SubsurfaceDomainCategories::SSM, SubsurfaceDomainCategories::SSNR, SubsurfaceDomainCategories::SST, SubsurfaceDomainCategories::AGSS, SubsurfaceDomainCategories::SemiSubmersibleBoats, SubsurfaceDomainCategories::CivilianSubmarines, SubsurfaceDomainCategories::CivilianSubmersibles, SubsurfaceDomainCategories::CivilianSemiSubmersibleBoats], |v| v as u64), scan: None },
  EnumRow { name: "SpaceDomainCategories", bits: 8, default: 0, codes: &[("Other", 0), ("MannedSpacecraft", 1), ("Unmanned", 2), ("Booster", 3), ("Debris", 10), ("SatelliteUnknownUnspecifiedMission", 11), ("SatelliteCommunication", 12), ("SatelliteNavigation", 13), ("SatelliteScienceExperimentalDemonstration", 14), ("SatelliteInert", 15), ("SatelliteEarthObservation", 16), ("SatelliteSpaceSurveillance", 17), ("SatelliteAstronomy", 18)], actual: || vec![SpaceDomainCategories::Other as u64, SpaceDomainCategories::MannedSpacecraft as u64, SpaceDomainCategories::Unmanned as u64, SpaceDomainCategories::Booster as u64, SpaceDomainCategories::Debris as u64, SpaceDomainCategories::SatelliteUnknownUnspecifiedMission as u64, SpaceDomainCategories::SatelliteCommunication as u64, SpaceDomainCategories::SatelliteNavigation as u64, SpaceDomainCategories::SatelliteScienceExperimentalDemonstration as u64, SpaceDomainCategories::SatelliteInert as u64, SpaceDomainCategories::SatelliteEarthObservation as u64, SpaceDomainCategories::SatelliteSpaceSurveillance as u64, SpaceDomainCategories::SatelliteAstronomy as u64], decode: |mut b| { let v = SpaceDomainCategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SpaceDomainCategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SpaceDomainCategories::Other, SpaceDomainCategories::MannedSpacecraft, SpaceDomainCategories::Unmanned, SpaceDomainCategories::Booster, SpaceDomainCategories::Debris, SpaceDomainCategories::SatelliteUnknownUnspecifiedMission, SpaceDomainCategories::SatelliteCommunication, SpaceDomainCategories::SatelliteNavigation, SpaceDomainCategories::SatelliteScienceExperimentalDemonstration, SpaceDomainCategories::SatelliteInert, SpaceDomainCategories::SatelliteEarthObservation, SpaceDomainCategories::SatelliteSpaceSurveillance, SpaceDomainCategories::SatelliteAstronomy], |v| v as u64), scan: None },
  EnumRow { name: "MunitionKind", bits: 8, default: 0, codes: &[("Other", 0), ("AntiAir", 1), ("AntiArmor", 2), ("AntiGuidedWeapon", 3), ("AntiRadar", 4), ("AntiSatellite", 5), ("AntiShip", 6), ("AntiSubmarine", 7), ("AntiPersonnel", 8), ("BattlefieldSupport", 9), ("Strategic", 10), ("Tactical", 11), ("DirectedEnergyWeapon", 12)], actual: || vec![MunitionKind::Other as u64, MunitionKind::AntiAir as u64, MunitionKind::AntiArmor as u64, MunitionKind::AntiGuidedWeapon as u64, MunitionKind::AntiRadar as u64, MunitionKind::AntiSatellite as u64, MunitionKind::AntiShip as u64, MunitionKind::AntiSubmarine as u64, MunitionKind::AntiPersonnel as u64, MunitionKind::BattlefieldSupport as u64, MunitionKind::Strategic as u64, MunitionKind::Tactical as u64, MunitionKind::DirectedEnergyWeapon as u64], decode: |mut b| { let v = MunitionKind::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MunitionKind as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MunitionKind::Other, MunitionKind::AntiAir, MunitionKind::AntiArmor, MunitionKind::AntiGuidedWeapon, MunitionKind::AntiRadar, MunitionKind::AntiSatellite, MunitionKind::AntiShip, MunitionKind::AntiSubmarine, MunitionKind::AntiPersonnel, MunitionKind::BattlefieldSupport, MunitionKind::Strategic, MunitionKind::Tactical, MunitionKind::DirectedEnergyWeapon], |v| v as u64), scan: None },
  EnumRow { name: "MunitionCategory", bits: 8, default: 0, codes: &[("Other", 0), ("Guided", 1), ("Ballistic", 2), ("Fixed", 3)], actual: || vec![MunitionCategory::Other as u64, MunitionCategory::Guided as u64, MunitionCategory::Ballistic as u64, MunitionCategory::Fixed as u64], decode: |mut b| { let v = MunitionCategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MunitionCategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MunitionCategory::Other, MunitionCategory::Guided, MunitionCategory::Ballistic, MunitionCategory::Fixed], |v| v as u64), scan: None },
  EnumRow { name: "USWeaponSubcategories", bits: 8, default: 1, codes: &[("AssaultMachinePistolKFAMP", 1), ("AutomaticModel1911A1_45", 2), ("CombatMasterMarkVI_45Detronics", 3), ("DecockerKP90DC_45", 4), ("DecockerKP91DC_40", 5), ("GeneralOfficersModel15_45", 6), ("Nova9mmLaFrance", 7), ("PersonalDefenseWeaponMP5KPDW9mm", 8), ("SilencedColt_45LaFrance", 9), ("_5900Series9mmSmithWessonSW", 10), ("M9", 11), ("Model1911A1SpringfieldArmory", 12), ("Model20009mm", 13), ("P99mmSpringfieldArmory", 14), ("P129mm", 15), ("P85MarkII9mmRuger", 16), ("AdvancedCombatRifle5_56mmAAI", 17), ("CommandoAssaultRifleModel7335_56mmColt", 18), ("InfantryRifleMini1420GB5_56mmRuger", 19), ("Mini145_56mmRuger", 20), ("MiniThirty7_62mmRuger", 21), ("SemiAutomaticModel82A2_50Barrett", 22), ("SniperWeaponSystemM247_62mm", 23), ("SnipingRifleM21SpringfieldArmory", 24), ("SnipingRifleM40A17_62mm", 25), ("SnipingRifleM6007_62mm", 26), ("AR15M165_56mm", 27), ("M1_30_1", 28), ("M147_62mmNATO", 29), ("M14M1AM1A1A1SpringfieldArmory", 30), ("M14KAssaultRifleLaFrance", 31), ("M16A2AssaultRifle5_56mmColt", 32), ("M217_62mmU_S_", 33), ("M77MarkII5_56mmRuger", 34), ("M77V7_62mmRuger", 35), ("S167_62x36mmGrendel", 36), ("SAR87_62mm", 37), ("SAR48007_62mm", 38), ("AssaultCarbineM16KLaFrance", 39), ("M1_30_2", 40), ("M4Model7205_56mmColt", 41), ("M9009mmCalico", 42), ("AC556F5_56mmRuger", 43), ("M3_45", 44), ("M11Cobray", 45), ("M9519mmCalico", 46), ("MP51010mm", 47), ("_9mmColt", 48), ("Ingram", 49), ("ExternallyPoweredEPG7_62mmAres", 50), ("GECAL50", 51), ("GeneralPurposeM607_62mm", 52), ("HeavyM2HBQCB_50RAMO", 53), ("LightassaultM60E3Enhanced7_62mm", 54), ("LightM16A25_56mmColt", 55), ("Light5_56mmAres", 56), ("LightweightM2_50RAMO", 57), ("LightweightAssaultM60E37_62mm", 58), ("MinigunM1347_62mmGeneralElectric", 59), ("MGsystemMK19Mod340mm", 60), ("MGsystemorkitM2HBQCB_50SacoDefense", 61), ("M1919A4_30calBrowning", 62), ("_50calBrowning", 63), ("ColoredSmokeHandGrenadeM18", 64), ("ColoredSmokeGrenadesFederalLaboratories", 65), ("InfraredSmokeGrenadeM76", 66), ("SmokeHandGrenadeANM8HC", 67), ("DelayFragmentationHandGrenadeM61", 68), ("DelayFragmentationHandGrenadeM67", 69), ("ImpactFragmentationHandGrenadeM57", 70), ("ImpactFragmentationHandGrenadeM68", 71), ("IncendiaryHandGrenadeANM14TH3", 72), ("LauncherIM20340mm", 73), ("LauncherM7940mm", 74), ("MultipleGrenadeLauncherMM140mm", 75), ("MultiShotPortableFlameWeaponM202A266mm", 76), ("PortableABCM97", 77), ("PortableM2A17", 78), ("PortableM9E17", 79), ("DragonMediumAntiArmorMissileM47FGM77A", 80), ("JavelinAAWSM", 81), ("LightAntiTankWeaponM72LAWII", 82), ("RedeyeFIM43GeneralDynamics", 83), ("SaberDualPurposeMissileSystem", 84), ("StingerFIM92GeneralDynamics", 85), ("TOWheavyAntiTankweapon", 86), ("BearTrapAPDevicePancor", 87), ("ChainGunAutomaticWeaponEX347_62mm", 88), ("CloseAssaultWeaponSystemCAWSAAI", 89), ("CAWSOlinHecklerAndKoch", 90), ("CrossfireSAMModel88", 91), ("DragonAndM16", 92), ("FiringPortWeaponM2315_56mmColt", 93), ("FoxholeDiggerExplosiveKitEXFODA", 94), ("InfantrySupportWeaponASP30RM30mm", 95), ("JackhammerMk3A2Pancor", 96), ("LightAntiArmorWeaponM136AT4", 97), ("M26A2", 98), ("MasterKeyS", 99), ("Minigun5_56mm", 100), ("MultipurposeIndividualMunitionMPIMMarquardt", 101), ("MultipurposeWeaponAT8", 102), ("RecoillessRifleM40M40A2andM40A4106mm", 103), ("RecoillessRifleM6790mm", 104), ("RevolverSP101", 105), ("RevolverSuperRedhawk_44MagnumRuger", 106), ("RAWRocket140mmBrunswick", 107), ("RifleLauncherAntiArmorMunitionRAAMOlin", 108), ("RocketLauncherM203_5in", 109), ("RocketLauncherEnhancedM72EseriesHEAT66mm", 110), ("SelectiveFireWeaponAC5565_56mmRuger", 111), ("SelectiveFireWeaponAC556F5_56mmRuger", 112), ("ShotgunM870Mk1U_S_MarineCorpsRemington", 113), ("SMAWMk19383mmMcDonnellDouglas", 114), ("SMAWDDisposableSMAW", 115), ("SquadAutomaticWeaponSAWM2495_56mm", 116), ("TacticalSupportWeapon5012_50calPeregrine", 117), ("TelescopedAmmunitionRevolverGunTARG_50calAres", 118), ("UltimateOverUnderCombinationCiener", 119), ("M18A1ClaymoreMine", 120), ("Mortar81mm", 121), ("MachinegunM2407_62mm", 134)], actual: || vec![USWeaponSubcategories::AssaultMachinePistolKFAMP as u64, USWeaponSubcategories::AutomaticModel1911A1_45 as u64, USWeaponSubcategories::CombatMasterMarkVI_45Detronics as u64, USWeaponSubcategories::DecockerKP90DC_45 as u64, USWeaponSubcategories::DecockerKP91DC_40 as u64, USWeaponSubcategories::GeneralOfficersModel15_45 as u64, USWeaponSubcategories::Nova9mmLaFrance as u64, USWeaponSubcategories::PersonalDefenseWeaponMP5KPDW9mm as u64, USWeaponSubcategories::SilencedColt_45LaFrance as u64, USWeaponSubcategories::_5900Series9mmSmithWessonSW as u64, USWeaponSubcategories::M9 as u64, USWeaponSubcategories::Model1911A1SpringfieldArmory as u64, USWeaponSubcategories::Model20009mm as u64, USWeaponSubcategories::P99mmSpringfieldArmory as u64, USWeaponSubcategories::P129mm as u64, USWeaponSubcategories::P85MarkII9mmRuger as u64, USWeaponSubcategories::AdvancedCombatRifle5_56mmAAI as u64, USWeaponSubcategories::CommandoAssaultRifleModel7335_56mmColt as u64, USWeaponSubcategories::InfantryRifleMini1420GB5_56mmRuger as u64, USWeaponSubcategories::Mini145_56mmRuger as u64, USWeaponSubcategories::MiniThirty7_62mmRuger as u64, USWeaponSubcategories::SemiAutomaticModel82A2_50Barrett as u64, USWeaponSubcategories::SniperWeaponSystemM247_62mm as u64, USWeaponSubcategories::SnipingRifleM21SpringfieldArmory as u64, USWeaponSubcategories::SnipingRifleM40A17_62mm as u64, USWeaponSubcategories::SnipingRifleM6007_62mm as u64, USWeaponSubcategories::AR15M165_56mm as u64, USWeaponSubcategories::M1_30_1 as u64, USWeaponSubcategories::M147_62mmNATO as u64, USWeaponSubcategories::M14M1AM1A1A1SpringfieldArmory as u64, USWeaponSubcategories::M14KAssaultRifleLaFrance as u64, USWeaponSubcategories::M16A2AssaultRifle5_56mmColt as u64, USWeaponSubcategories::M217_62mmU_S_ as u64, USWeaponSubcategories::M77MarkII5_56mmRuger as u64, USWeaponSubcategories::M77V7_62mmRuger as u64, USWeaponSubcategories::S167_62x36mmGrendel as u64, USWeaponSubcategories::SAR87_62mm as u64, USWeaponSubcategories::SAR48007_62mm as u64, USWeaponSubcategories::AssaultCarbineM16KLaFrance as u64, USWeaponSubcategories::M1_30_2 as u64, USWeaponSubcategories::M4Model7205_56mmColt as u64, USWeaponSubcategories::M9009mmCalico as u64, USWeaponSubcategories::AC556F5_56mmRuger as u64, USWeaponSubcategories::M3_45 as u64, USWeaponSubcategories::M11Cobray as u64, USWeaponSubcategories::M9519mmCalico as u64, USWeaponSubcategories::MP51010mm as u64, USWeaponSubcategories::_9mmColt as u64, USWeaponSubcategories::Ingram as u64, USWeaponSubcategories::ExternallyPoweredEPG7_62mmAres as u64, USWeaponSubcategories::GECAL50 as u64, USWeaponSubcategories::GeneralPurposeM607_62mm as u64, USWeaponSubcategories::HeavyM2HBQCB_50RAMO as u64, USWeaponSubcategories::LightassaultM60E3Enhanced7_62mm as u64, USWeaponSubcategories::LightM16A25_56mmColt as u64, USWeaponSubcategories::Light5_56mmAres as u64, USWeaponSubcategories::LightweightM2_50RAMO as u64, USWeaponSubcategories::LightweightAssaultM60E37_62mm as u64, USWeaponSubcategories::MinigunM1347_62mmGeneralElectric as u64, USWeaponSubcategories::MGsystemMK19Mod340mm as u64, USWeaponSubcategories::MGsystemorkitM2HBQCB_50SacoDefense as u64, USWeaponSubcategories::M1919A4_30calBrowning as u64, USWeaponSubcategories::_50calBrowning as u64, USWeaponSubcategories::ColoredSmokeHandGrenadeM18 as u64, USWeaponSubcategories::ColoredSmokeGrenadesFederalLaboratories as u64, USWeaponSubcategories::InfraredSmokeGrenadeM76 as u64, USWeaponSubcategories::SmokeHandGrenadeANM8HC as u64, USWeaponSubcategories::DelayFragmentationHandGrenadeM61 as u64, USWeaponSubcategories::DelayFragmentationHandGrenadeM67 as u64, USWeaponSubcategories::ImpactFragmentationHandGrenadeM57 as u64, USWeaponSubcategories::ImpactFragmentationHandGrenadeM68 as u64, USWeaponSubcategories::IncendiaryHandGrenadeANM14TH3 as u64, USWeaponSubcategories::LauncherIM20340mm as u64, USWeaponSubcategories::LauncherM7940mm as u64, USWeaponSubcategories::MultipleGrenadeLauncherMM140mm as u64, USWeaponSubcategories::MultiShotPortableFlameWeaponM202A266mm as u64, USWeaponSubcategories::PortableABCM97 as u64, USWeaponSubcategories::PortableM2A17 as u64, USWeaponSubcategories::PortableM9E17 as u64, USWeaponSubcategories::DragonMediumAntiArmorMissileM47FGM77A as u64, USWeaponSubcategories::JavelinAAWSM as u64, USWeaponSubcategories::LightAntiTankWeaponM72LAWII as u64, USWeaponSubcategories::RedeyeFIM43GeneralDynamics as u64, USWeaponSubcategories::SaberDualPurposeMissileSystem as u64, USWeaponSubcategories::StingerFIM92GeneralDynamics as u64, USWeaponSubcategories::TOWheavyAntiTankweapon as u64, USWeaponSubcategories::BearTrapAPDevicePancor as u64, USWeaponSubcategories::ChainGunAutomaticWeaponEX347_62mm as u64, USWeaponSubcategories::CloseAssaultWeaponSystemCAWSAAI as u64, USWeaponSubcategories::CAWSOlinHecklerAndKoch as u64, USWeaponSubcategories::CrossfireSAMModel88 as u64, USWeaponSubcategories::DragonAndM16 as u64, USWeaponSubcategories::FiringPortWeaponM2315_56mmColt as u64, USWeaponSubcategories::FoxholeDiggerExplosiveKitEXFODA as u64, USWeaponSubcategories::InfantrySupportWeaponASP30RM30mm as u64, USWeaponSubcategories::JackhammerMk3A2Pancor as u64, USWeaponSubcategories::LightAntiArmorWeaponM136AT4 as u64, USWeaponSubcategories::M26A2 as u64, USWeaponSubcategories::MasterKeyS as u64, USWeaponSubcategories::Minigun5_56mm as u64, USWeaponSubcategories::MultipurposeIndividualMunitionMPIMMarquardt as u64, USWeaponSubcategories::MultipurposeWeaponAT8 as u64, USWeaponSubcategories::RecoillessRifleM40M40A2andM40A4106mm as u64, USWeaponSubcategories::RecoillessRifleM6790mm as u64, USWeaponSubcategories::RevolverSP101 as u64, USWeaponSubcategories::RevolverSuperRedhawk_44MagnumRuger as u64, USWeaponSubcategories::RAWRocket140mmBrunswick as u64, USWeaponSubcategories::RifleLauncherAntiArmorMunitionRAAMOlin as u64, USWeaponSubcategories::RocketLauncherM203_5in as u64, USWeaponSubcategories::RocketLauncherEnhancedM72EseriesHEAT66mm as u64, USWeaponSubcategories::SelectiveFireWeaponAC5565_56mmRuger as u64, USWeaponSubcategories::SelectiveFireWeaponAC556F5_56mmRuger as u64, USWeaponSubcategories::ShotgunM870Mk1U_S_MarineCorpsRemington as u64, USWeaponSubcategories::SMAWMk19383mmMcDonnellDouglas as u64, USWeaponSubcategories::SMAWDDisposableSMAW as u64, USWeaponSubcategories::SquadAutomaticWeaponSAWM2495_56mm as u64, USWeaponSubcategories::TacticalSupportWeapon5012_50calPeregrine as u64, USWeaponSubcategories::TelescopedAmmunitionRevolverGunTARG_50calAres as u64, USWeaponSubcategories::UltimateOverUnderCombinationCiener as u64, USWeaponSubcategories::M18A1ClaymoreMine as u64, USWeaponSubcategories::Mortar81mm as u64, USWeaponSubcategories::MachinegunM2407_62mm as u64], decode: |mut b| { let v = USWeaponSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <USWeaponSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[USWeaponSubcategories::AssaultMachinePistolKFAMP, USWeaponSubcategories::AutomaticModel1911A1_45, USWeaponSubcategories::CombatMasterMarkVI_45Detronics, USWeaponSubcategories::DecockerKP90DC_45, USWeaponSubcategories::DecockerKP91DC_40, USWeaponSubcategories::GeneralOfficersModel15_45, USWeaponSubcategories::Nova9mmLaFrance, USWeaponSubcategories::PersonalDefenseWeaponMP5KPDW9mm, USWeaponSubcategories::SilencedColt_45LaFrance, USWeaponSubcategories::_5900Series9mmSmithWessonSW, USWeaponSubcategories::M9, USWeaponSubcategories::Model1911A1SpringfieldArmory, USWeaponSubcategories::Model20009mm, USWeaponSubcategories::P99mmSpringfieldArmory, USWeaponSubcategories::P129mm, USWeaponSubcategories::P85MarkII9mmRuger, USWeaponSubcategories::AdvancedCombatRifle5_56mmAAI, USWeaponSubcategories::CommandoAssaultRifleModel7335_56mmColt, USWeaponSubcategories::InfantryRifleMini1420GB5_56mmRuger, USWeaponSubcategories::Mini145_56mmRuger, USWeaponSubcategories::MiniThirty7_62mmRuger, USWeaponSubcategories::SemiAutomaticModel82A2_50Barrett, USWeaponSubcategories::SniperWeaponSystemM247_62mm, USWeaponSubcategories::SnipingRifleM21SpringfieldArmory, USWeaponSubcategories::SnipingRifleM40A17_62mm, USWeaponSubcategories::SnipingRifleM6007_62mm, USWeaponSubcategories::AR15M165_56mm, USWeaponSubcategories::M1_30_1, USWeaponSubcategories::M147_62mmNATO, USWeaponSubcategories::M14M1AM1A1A1SpringfieldArmory, USWeaponSubcategories::M14KAssaultRifleLaFrance, USWeaponSubcategories::M16A2AssaultRifle5_56mmColt, USWeaponSubcategories::M217_62mmU_S_, USWeaponSubcategories::M77MarkII5_56mmRuger, USWeaponSubcategories::M77V7_62mmRuger, USWeaponSubcategories::S167_62x36mmGrendel, USWeaponSubcategories::SAR87_62mm, USWeaponSubcategories::SAR48007_62mm, USWeaponSubcategories::AssaultCarbineM16KLaFrance, USWeaponSubcategories::M1_30_2, USWeaponSubcategories::M4Model7205_56mmColt, USWeaponSubcategories::M9009mmCalico, USWeaponSubcategories::AC556F5_56mmRuger, USWeaponSubcategories::M3_45, USWeaponSubcategories::M11Cobray, USWeaponSubcategories::M9519mmCalico, USWeaponSubcategories::MP51010mm, USWeaponSubcategories::_9mmColt, USWeaponSubcategories::Ingram, USWeaponSubcategories::ExternallyPoweredEPG7_62mmAres, USWeaponSubcategories::GECAL50, USWeaponSubcategories::GeneralPurposeM607_62mm, USWeaponSubcategories::HeavyM2HBQCB_50RAMO, USWeaponSubcategories::LightassaultM60E3Enhanced7_62mm, USWeaponSubcategories::LightM16A25_56mmColt, USWeaponSubcategories::Light5_56mmAres, USWeaponSubcategories::LightweightM2_50RAMO, USWeaponSubcategories::LightweightAssaultM60E37_62mm, USWeaponSubcategories::MinigunM1347_62mmGeneralElectric, USWeaponSubcategories::MGsystemMK19Mod340mm, USWeaponSubcategories::MGsystemorkitM2HBQCB_50SacoDefense, USWeaponSubcategories::M1919A4_30calBrowning, USWeaponSubcategories::_50calBrowning, USWeaponSubcategories::ColoredSmokeHandGrenadeM18, USWeaponSubcategories::ColoredSmokeGrenadesFederalLaboratories, USWeaponSubcategories::InfraredSmokeGrenadeM76, USWeaponSubcategories::SmokeHandGrenadeANM8HC, USWeaponSubcategories::DelayFragmentationHandGrenadeM61, USWeaponSubcategories::DelayFragmentationHandGrenadeM67, USWeaponSubcategories::ImpactFragmentationHandGrenadeM57, USWeaponSubcategories::ImpactFragmentationHandGrenadeM68, USWeaponSubcategories::IncendiaryHandGrenadeANM14TH3, USWeaponSubcategories::LauncherIM20340mm, USWeaponSubcategories::LauncherM7940mm, USWeaponSubcategories::MultipleGrenadeLauncherMM140mm, USWeaponSubcategories::MultiShotPortableFlameWeaponM202A266mm, USWeaponSubcategories::PortableABCM97, USWeaponSubcategories::PortableM2A17, USWeaponSubcategories::PortableM9E17, USWeaponSubcategories::DragonMediumAntiArmorMissileM47FGM77A, USWeaponSubcategories::JavelinAAWSM, USWeaponSubcategories::LightAntiTankWeaponM72LAWII, USWeaponSubcategories::RedeyeFIM43GeneralDynamics, USWeaponSubcategories::SaberDualPurposeMissileSystem, USWeaponSubcategories::StingerFIM92GeneralDynamics, USWeaponSubcategories::TOWheavyAntiTankweapon, USWeaponSubcategories::BearTrapAPDevicePancor, USWeaponSubcategories::ChainGunAutomaticWeaponEX347_62mm, USWeaponSubcategories::CloseAssaultWeaponSystemCAWSAAI, USWeaponSubcategories::CAWSOlinHecklerAndKoch, USWeaponSubcategories::CrossfireSAMModel88, USWeaponSubcategories::DragonAndM16, USWeaponSubcategories::FiringPortWeaponM2315_56mmColt, USWeaponSubcategories::FoxholeDiggerExplosiveKitEXFODA, USWeaponSubcategories::InfantrySupportWeaponASP30RM30mm, USWeaponSubcategories::JackhammerMk3A2Pancor, USWeaponSubcategories::LightAntiArmorWeaponM136AT4, USWeaponSubcategories::M26A2, USWeaponSubcategories::MasterKeyS, USWeaponSubcategories::Minigun5_56mm, USWeaponSubcategories::MultipurposeIndividualMunitionMPIMMarquardt, USWeaponSubcategories::MultipurposeWeaponAT8, USWeaponSubcategories::RecoillessRifleM40M40A2andM40A4106mm, USWeaponSubcategories::RecoillessRifleM6790mm, USWeaponSubcategories::RevolverSP101, USWeaponSubcategories::RevolverSuperRedhawk_44MagnumRuger, USWeaponSubcategories::RAWRocket140mmBrunswick, USWeaponSubcategories::RifleLauncherAntiArmorMunitionRAAMOlin, USWeaponSubcategories::RocketLauncherM203_5in, USWeaponSubcategories::RocketLauncherEnhancedM72EseriesHEAT66mm, USWeaponSubcategories::SelectiveFireWeaponAC5565_56mmRuger, USWeaponSubcategories::SelectiveFireWeaponAC556F5_56mmRuger, USWeaponSubcategories::ShotgunM870Mk1U_S_MarineCorpsRemington, USWeaponSubcategories::SMAWMk19383mmMcDonnellDouglas, USWeaponSubcategories::SMAWDDisposableSMAW, USWeaponSubcategories::SquadAutomaticWeaponSAWM2495_56mm, USWeaponSubcategories::TacticalSupportWeapon5012_50calPeregrine, USWeaponSubcategories::TelescopedAmmunitionRevolverGunTARG_50calAres, USWeaponSubcategories::UltimateOverUnderCombinationCiener, USWeaponSubcategories::M18A1ClaymoreMine, USWeaponSubcategories::Mortar81mm, USWeaponSubcategories::MachinegunM2407_62mm], |v| v as u64), scan: None },
  EnumRow { name: "RussiaWeaponSubcategories", bits: 8, default: 201, codes: &[("Automatic9mmStechkin", 201), ("PSM5_45mm", 202), ("Selfloading9mmMakarov", 203), ("TT337_62mmTokarev", 204), ("AssaultrifleAKandAKM7_62mm", 205), ("AssaultrifleAK74andAKS745_45mm", 206), ("Selfloadingrifle7_62mmSimonov", 207), ("SniperrifleSVD7_62mmDragunov", 208), ("AKSU745_45mm", 209), ("PPS437_62mm", 210), ("PPSh417_62mm", 211), ("GeneralpurposePK7_62mm", 212), ("HeavyDShK38andModel384612_7mmDegtyarev", 213), ("HeavyNSV12_7mm", 214), ("LightRPD7_62mm", 215), ("LightRPK7_62mm", 216), ("LightRPK745_45mm", 217), ("HandGrenadeM75", 218), ("HandGrenadeRGD5", 219), ("APHandGrenadeF1", 220), ("ATHandGrenadeRKG3", 221), ("ATHandGrenadeRKG3M", 222), ("ATHandGrenadeRKG3T", 223), ("FragmentationHandGrenadeRGN", 224), ("FragmentationHandGrenadeRGO", 225), ("SmokeHandGrenadeRDG1", 226), ("Plamyalauncher30mmAGS17", 227), ("RiflemountedlauncherBG1540mm", 228), ("LPO50", 229), ("ROKS3", 230), ("CartmountedTPO50", 231), ("GimletSA16", 232), ("GrailSA7", 233), ("GremlinSA14", 234), ("SaggerAT3", 235), ("SaxhornAT7", 236), ("SpigotABAT14", 237), ("SA18", 238), ("SA19", 239), ("Grad1PmanPortableTripodRocketLauncher122mm", 240), ("LightAntiArmorWeaponRPG18", 241), ("LightAntiTankWeaponRPG22", 242), ("MGRPG", 243), ("PortableRocketLauncherRPG16", 244), ("RecoillessGun73mmSPG9", 245), ("VATRocketLauncherRPG7", 246), ("Mon50AntiPersonnelMine", 248), ("RPG29Vampir", 249), ("LaserDesignator", 250), ("AT4Spigot", 251), ("SA24IglaS", 252), ("Type69RPG", 253)], actual: || vec![RussiaWeaponSubcategories::Automatic9mmStechkin as u64, RussiaWeaponSubcategories::PSM5_45mm as u64, RussiaWeaponSubcategories::Selfloading9mmMakarov as u64, RussiaWeaponSubcategories::TT337_62mmTokarev as u64, RussiaWeaponSubcategories::AssaultrifleAKandAKM7_62mm as u64, RussiaWeaponSubcategories::AssaultrifleAK74andAKS745_45mm as u64, RussiaWeaponSubcategories::Selfloadingrifle7_62mmSimonov as u64, RussiaWeaponSubcategories::SniperrifleSVD7_62mmDragunov as u64, RussiaWeaponSubcategories::AKSU745_45mm as u64, RussiaWeaponSubcategories::PPS437_62mm as u64, RussiaWeaponSubcategories::PPSh417_62mm as u64, RussiaWeaponSubcategories::GeneralpurposePK7_62mm as u64, RussiaWeaponSubcategories::HeavyDShK38andModel384612_7mmDegtyarev as u64, RussiaWeaponSubcategories::HeavyNSV12_7mm as u64, RussiaWeaponSubcategories::LightRPD7_62mm as u64, RussiaWeaponSubcategories::LightRPK7_62mm as u64, RussiaWeaponSubcategories::LightRPK745_45mm as u64, RussiaWeaponSubcategories::HandGrenadeM75 as u64, RussiaWeaponSubcategories::HandGrenadeRGD5 as u64, RussiaWeaponSubcategories::APHandGrenadeF1 as u64, RussiaWeaponSubcategories::ATHandGrenadeRKG3 as u64, RussiaWeaponSubcategories::ATHandGrenadeRKG3M as u64, RussiaWeaponSubcategories::ATHandGrenadeRKG3T as u64, RussiaWeaponSubcategories::FragmentationHandGrenadeRGN as u64, RussiaWeaponSubcategories::FragmentationHandGrenadeRGO as u64, RussiaWeaponSubcategories::SmokeHandGrenadeRDG1 as u64, RussiaWeaponSubcategories::Plamyalauncher30mmAGS17 as u64, RussiaWeaponSubcategories::RiflemountedlauncherBG1540mm as u64, RussiaWeaponSubcategories::LPO50 as u64, RussiaWeaponSubcategories::ROKS3 as u64, RussiaWeaponSubcategories::CartmountedTPO50 as u64, RussiaWeaponSubcategories::GimletSA16 as u64, RussiaWeaponSubcategories::GrailSA7 as u64, RussiaWeaponSubcategories::GremlinSA14 as u64, RussiaWeaponSubcategories::SaggerAT3 as u64, RussiaWeaponSubcategories::SaxhornAT7 as u64, RussiaWeaponSubcategories::SpigotABAT14 as u64, RussiaWeaponSubcategories::SA18 as u64, RussiaWeaponSubcategories::SA19 as u64, RussiaWeaponSubcategories::Grad1PmanPortableTripodRocketLauncher122mm as u64, RussiaWeaponSubcategories::LightAntiArmorWeaponRPG18 as u64, RussiaWeaponSubcategories::LightAntiTankWeaponRPG22 as u64, RussiaWeaponSubcategories::MGRPG as u64, RussiaWeaponSubcategories::PortableRocketLauncherRPG16 as u64, RussiaWeaponSubcategories::RecoillessGun73mmSPG9 as u64, RussiaWeaponSubcategories::VATRocketLauncherRPG7 as u64, RussiaWeaponSubcategories::Mon50AntiPersonnelMine as u64, RussiaWeaponSubcategories::RPG29Vampir as u64, RussiaWeaponSubcategories::LaserDesignator as u64, RussiaWeaponSubcategories::AT4Spigot as u64, RussiaWeaponSubcategories::SA24IglaS as u64, RussiaWeaponSubcategories::Type69RPG as u64], decode: |mut b| { let v = RussiaWeaponSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <RussiaWeaponSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[RussiaWeaponSubcategories::Automatic9mmStechkin, RussiaWeaponSubcategories::PSM5_45mm, RussiaWeaponSubcategories::Selfloading9mmMakarov, RussiaWeaponSubcategories::TT337_62mmTokarev, RussiaWeaponSubcategories::AssaultrifleAKandAKM7_62mm, RussiaWeaponSubcategories::AssaultrifleAK74andAKS745_45mm, RussiaWeaponSubcategories::Selfloadingrifle7_62mmSimonov, RussiaWeaponSubcategories::SniperrifleSVD7_62mmDragunov, RussiaWeaponSubcategories::AKSU745_45mm, RussiaWeaponSubcategories::PPS437_62mm, RussiaWeaponSubcategories::PPSh417_62mm, RussiaWeaponSubcategories::GeneralpurposePK7_62mm, RussiaWeaponSubcategories::HeavyDShK38andModel384612_7mmDegtyarev, RussiaWeaponSubcategories::HeavyNSV12_7mm, RussiaWeaponSubcategories::LightRPD7_62mm, RussiaWeaponSubcategories::LightRPK7_62mm, RussiaWeaponSubcategories::LightRPK745_45mm, RussiaWeaponSubcategories::HandGrenadeM75, RussiaWeaponSubcategories::HandGrenadeRGD5, RussiaWeaponSubcategories::APHandGrenadeF1, RussiaWeaponSubcategories::ATHandGrenadeRKG3, RussiaWeaponSubcategories::ATHandGrenadeRKG3M, RussiaWeaponSubcategories::ATHandGrenadeRKG3T, RussiaWeaponSubcategories::FragmentationHandGrenadeRGN, RussiaWeaponSubcategories::FragmentationHandGrenadeRGO, RussiaWeaponSubcategories::SmokeHandGrenadeRDG1, RussiaWeaponSubcategories::Plamyalauncher30mmAGS17, RussiaWeaponSubcategories::RiflemountedlauncherBG1540mm, RussiaWeaponSubcategories::LPO50, RussiaWeaponSubcategories::ROKS3, RussiaWeaponSubcategories::CartmountedTPO50, RussiaWeaponSubcategories::GimletSA16, RussiaWeaponSubcategories::GrailSA7, RussiaWeaponSubcategories::GremlinSA14, RussiaWeaponSubcategories::SaggerAT3, RussiaWeaponSubcategories::SaxhornAT7, RussiaWeaponSubcategories::SpigotABAT14, RussiaWeaponSubcategories::SA18, RussiaWeaponSubcategories::SA19, RussiaWeaponSubcategories::Grad1PmanPortableTripodRocketLauncher122mm, RussiaWeaponSubcategories::LightAntiArmorWeaponRPG18, RussiaWeaponSubcategories::LightAntiTankWeaponRPG22, RussiaWeaponSubcategories::MGRPG, RussiaWeaponSubcategories::PortableRocketLauncherRPG16, RussiaWeaponSubcategories::RecoillessGun73mmSPG9, RussiaWeaponSubcategories::VATRocketLauncherRPG7, RussiaWeaponSubcategories::Mon50AntiPersonnelMine, RussiaWeaponSubcategories::RPG29Vampir, RussiaWeaponSubcategories::LaserDesignator, RussiaWeaponSubcategories::AT4Spigot, RussiaWeaponSubcategories::SA24IglaS, RussiaWeaponSubcategories::Type69RPG], |v| v as u64), scan: None },
  EnumRow { name: "UKWeaponSubcategories", bits: 8, default: 1, codes: &[("LAW80", 1), ("Blowpipe", 2), ("Javelin", 3), ("_51mmmortar", 4), ("SLR7_62mmrifle", 5), ("Sterling9mmsubmachinegun", 6), ("L7A2generalpurposeMG", 7), ("L6WombatRecoillessrifle", 8), ("CarlGustav89mmrecoillessrifle", 9), ("SA80Individuallightsupportweapon", 10), ("Trigat", 11), ("MilanATmissile", 12)], actual: || vec![UKWeaponSubcategories::LAW80 as u64, UKWeaponSubcategories::Blowpipe as u64, UKWeaponSubcategories::Javelin as u64, UKWeaponSubcategories::_51mmmortar as u64, UKWeaponSubcategories::SLR7_62mmrifle as u64, UKWeaponSubcategories::Sterling9mmsubmachinegun as u64, UKWeaponSubcategories::L7A2generalpurposeMG as u64, UKWeaponSubcategories::L6WombatRecoillessrifle as u64, UKWeaponSubcategories::CarlGustav89mmrecoillessrifle as u64, UKWeaponSubcategories::SA80Individuallightsupportweapon as u64, UKWeaponSubcategories::Trigat as u64, UKWeaponSubcategories::MilanATmissile as u64], decode: |mut b| { let v = UKWeaponSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <UKWeaponSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[UKWeaponSubcategories::LAW80, UKWeaponSubcategories::Blowpipe, UKWeaponSubcategories::Javelin, UKWeaponSubcategories::_51mmmortar, UKWeaponSubcategories::SLR7_62mmrifle, UKWeaponSubcategories::Sterling9mmsubmachinegun, UKWeaponSubcategories::L7A2generalpurposeMG, UKWeaponSubcategories::L6WombatRecoillessrifle, UKWeaponSubcategories::CarlGustav89mmrecoillessrifle, UKWeaponSubcategories::SA80Individuallightsupportweapon, UKWeaponSubcategories::Trigat, UKWeaponSubcategories::MilanATmissile], |v| v as u64), scan: None },
  EnumRow { name: "FrenchWeaponSubcategories", bits: 8, default: 1, codes: &[("ACLSTRIM", 1), ("Mistralmissile", 2), ("MilanATmissile", 3), ("LRACF189mmATrocketlauncher", 4), ("FAMASrifle", 5), ("AA52machinegun", 6), ("_58mmriflegrenade", 7), ("FRF1sniperrifle", 8)], actual: || vec![FrenchWeaponSubcategories::ACLSTRIM as u64, FrenchWeaponSubcategories::Mistralmissile as u64, FrenchWeaponSubcategories::MilanATmissile as u64, FrenchWeaponSubcategories::LRACF189mmATrocketlauncher as u64, FrenchWeaponSubcategories::FAMASrifle as u64, FrenchWeaponSubcategories::AA52machinegun as u64, FrenchWeaponSubcategories::_58mmriflegrenade as u64, FrenchWeaponSubcategories::FRF1sniperrifle as u64], decode: |mut b| { let v = FrenchWeaponSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <FrenchWeaponSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[FrenchWeaponSubcategories::ACLSTRIM, FrenchWeaponSubcategories::Mistralmissile, FrenchWeaponSubcategories::MilanATmissile, FrenchWeaponSubcategories::LRACF189mmATrocketlauncher, FrenchWeaponSubcategories::FAMASrifle, FrenchWeaponSubcategories::AA52machinegun, FrenchWeaponSubcategories::_58mmriflegrenade, FrenchWeaponSubcategories::FRF1sniperrifle], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormsSubcategoryGermanWeapons", bits: 8, default: 1, codes: &[("G3rifle", 1), ("G11rifle", 2), ("P1pistol", 3), ("MG3machinegun", 4), ("Milanmissile", 5), ("MP1Uzisubmachinegun", 6), ("Panzerfaust3LightAntiTankWeapon", 7), ("DM19HandGrenade", 8), ("DM29HandGrenade", 9)], actual: || vec![LifeFormsSubcategoryGermanWeapons::G3rifle as u64, LifeFormsSubcategoryGermanWeapons::G11rifle as u64, LifeFormsSubcategoryGermanWeapons::P1pistol as u64, LifeFormsSubcategoryGermanWeapons::MG3machinegun as u64, LifeFormsSubcategoryGermanWeapons::Milanmissile as u64, LifeFormsSubcategoryGermanWeapons::MP1Uzisubmachinegun as u64, LifeFormsSubcategoryGermanWeapons::Panzerfaust3LightAntiTankWeapon as u64, LifeFormsSubcategoryGermanWeapons::DM19HandGrenade as u64, LifeFormsSubcategoryGermanWeapons::DM29HandGrenade as u64], decode: |mut b| { let v = LifeFormsSubcategoryGermanWeapons::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormsSubcategoryGermanWeapons as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormsSubcategoryGermanWeapons::G3rifle, LifeFormsSubcategoryGermanWeapons::G11rifle, LifeFormsSubcategoryGermanWeapons::P1pistol, LifeFormsSubcategoryGermanWeapons::MG3machinegun, LifeFormsSubcategoryGermanWeapons::Milanmissile, LifeFormsSubcategoryGermanWeapons::MP1Uzisubmachinegun, LifeFormsSubcategoryGermanWeapons::Panzerfaust3LightAntiTankWeapon, LifeFormsSubcategoryGermanWeapons::DM19HandGrenade, LifeFormsSubcategoryGermanWeapons::DM29HandGrenade], |v| v as u64), scan: None },
  EnumRow { name: "EnvironmentalSubcategory", bits: 8, default: 0, codes: &[("Other", 0), ("VerySmall", 20), ("Small", 40), ("Medium", 60), ("Large", 80), ("VeryLarge", 100)], actual: || vec![EnvironmentalSubcategory::Other as u64, EnvironmentalSubcategory::VerySmall as u64, EnvironmentalSubcategory::Small as u64, EnvironmentalSubcategory::Medium as u64, EnvironmentalSubcategory::Large as u64, EnvironmentalSubcategory::VeryLarge as u64], decode: |mut b| { let v = EnvironmentalSubcategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EnvironmentalSubcategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EnvironmentalSubcategory::Other, EnvironmentalSubcategory::VerySmall, EnvironmentalSubcategory::Small, EnvironmentalSubcategory::Medium, EnvironmentalSubcategory::Large, EnvironmentalSubcategory::VeryLarge], |v| v as u64), scan: None },
  EnumRow { name: "RadioCategory", bits: 8, default: 0, codes: &[("Other", 0), ("VoiceTransmissionReception", 1), ("DataLinkTransmissionReception", 2), ("VoiceandDataLinkTransmissionReception", 3), ("InstrumentedLandingSystemGlideslopeTransmitter", 4), ("InstrumentedLandingSystemLocalizerTransmitter", 5), ("InstrumentedLandingSystemOuterMarkerBeacon", 6), ("InstrumentedLandingSystemMiddleMarkerBeacon", 7), ("InstrumentedLandingSystemInnerMarkerBeacon", 8), ("InstrumentedLandingSystem", 9), ("TacticalAirNavigationTACANTransmitter", 10), ("TacticalAirNavigationTACANReceiver", 11), ("TacticalAirNavigationTACANTransmitterReceiver", 12), ("VariableOmniRangingVORTransmitter", 13), ("VariableOmniRangingVORWithDistanceMeasuringEquipmentTransmitter", 14), ("CombinedVORILSReceiver", 15), ("CombinedVORTACANTransmitter", 16), ("NonDirectionalBeaconTransmitter", 17), ("NonDirectionalBeaconReceiver", 18), ("NonDirectionalBeaconWithDistanceMeasuringEquipmentTransmitter", 19), ("DistanceMeasuringEquipment", 20), ("Link16Terminal", 21), ("Link11Terminal", 22), ("Link11BTerminal", 23), ("EPLRSSADLTerminal", 24), ("F22IntraFlightDataLink", 25), ("F35MultifunctionAdvancedDataLink", 26), ("SINCGARSTerminal", 27), ("LBandSATCOMTerminal", 28), ("IBSTerminal", 29), ("GPS", 30), ("TacticalVideo", 31), ("AirtoAirMissileDatalink", 32), ("Link16SurrogateforNonNATOTDLTerminal", 33), ("MQ19CBandLOSDatalink", 34), ("MQ19KuBandSATCOMDatalink", 35), ("AirtoGroundWeaponDatalink", 36), ("AutomaticIdentificationSystem", 37), ("JPALSDataLink", 38), ("CombatSearchandRescueRadio", 40), ("CounterUnmannedAircraftSystemRadio", 41), ("EmergencyPositionIndicatingRadioBeacons", 42), ("ElectronicAttackSystems", 50), ("TacticalTargetingNetworkTechnology", 51)], actual: || vec![RadioCategory::Other as u64, RadioCategory::VoiceTransmissionReception as u64, RadioCategory::DataLinkTransmissionReception as u64, RadioCategory::VoiceandDataLinkTransmissionReception as u64, RadioCategory::InstrumentedLandingSystemGlideslopeTransmitter as u64, RadioCategory::InstrumentedLandingSystemLocalizerTransmitter as u64, RadioCategory::InstrumentedLandingSystemOuterMarkerBeacon as u64, RadioCategory::InstrumentedLandingSystemMiddleMarkerBeacon as u64, RadioCategory::InstrumentedLandingSystemInnerMarkerBeacon as u64, RadioCategory::InstrumentedLandingSystem as u64, RadioCategory::TacticalAirNavigationTACANTransmitter as u64, RadioCategory::TacticalAirNavigationTACANReceiver as u64, RadioCategory::TacticalAirNavigationTACANTransmitterReceiver as u64, RadioCategory::VariableOmniRangingVORTransmitter as u64, RadioCategory::VariableOmniRangingVORWithDistanceMeasuringEquipmentTransmitter as u64, RadioCategory::CombinedVORILSReceiver as u64, RadioCategory::CombinedVORTACANTransmitter as u64, RadioCategory::NonDirectionalBeaconTransmitter as u64, RadioCategory::NonDirectionalBeaconReceiver as u64, RadioCategory::NonDirectionalBeaconWithDistanceMeasuringEquipmentTransmitter as u64, RadioCategory::DistanceMeasuringEquipment as u64, RadioCategory::Link16Terminal as u64, RadioCategory::Link11Terminal as u64, RadioCategory::Link11BTerminal as u64, RadioCategory::EPLRSSADLTerminal as u64, RadioCategory::F22IntraFlightDataLink as u64, RadioCategory::F35MultifunctionAdvancedDataLink as u64, RadioCategory::SINCGARSTerminal as u64, RadioCategory::LBandSATCOMTerminal as u64, RadioCategory::IBSTerminal as u64, RadioCategory::GPS as u64, RadioCategory::TacticalVideo as u64, RadioCategory::AirtoAirMissileDatalink as u64, RadioCategory::Link16SurrogateforNonNATOTDLTerminal as u64, RadioCategory::MQ19CBandLOSDatalink as u64, RadioCategory::MQ19KuBandSATCOMDatalink as u64, RadioCategory::AirtoGroundWeaponDatalink as u64, RadioCategory::AutomaticIdentificationSystem as u64, RadioCategory::JPALSDataLink as u64, RadioCategory::CombatSearchandRescueRadio as u64, RadioCategory::CounterUnmannedAircraftSystemRadio as u64, RadioCategory::EmergencyPositionIndicatingRadioBeacons as u64, RadioCategory::ElectronicAttackSystems as u64, RadioCategory::TacticalTargetingNetworkTechnology as u64], decode: |mut b| { let v = RadioCategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <RadioCategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[RadioCategory::Other, RadioCategory::VoiceTransmissionReception, RadioCategory::DataLinkTransmissionReception, RadioCategory::VoiceandDataLinkTransmissionReception, RadioCategory::InstrumentedLandingSystemGlideslopeTransmitter, RadioCategory::InstrumentedLandingSystemLocalizerTransmitter, RadioCategory::InstrumentedLandingSystemOuterMarkerBeacon, RadioCategory::InstrumentedLandingSystemMiddleMarkerBeacon, RadioCategory::InstrumentedLandingSystemInnerMarkerBeacon, RadioCategory::InstrumentedLandingSystem, RadioCategory::TacticalAirNavigationTACANTransmitter, RadioCategory::TacticalAirNavigationTACANReceiver, RadioCategory::TacticalAirNavigationTACANTransmitterReceiver, RadioCategory::VariableOmniRangingVORTransmitter, RadioCategory::VariableOmniRangingVORWithDistanceMeasuringEquipmentTransmitter, RadioCategory::CombinedVORILSReceiver, RadioCategory::CombinedVORTACANTransmitter, RadioCategory::NonDirectionalBeaconTransmitter, RadioCategory::NonDirectionalBeaconReceiver, RadioCategory::NonDirectionalBeaconWithDistanceMeasuringEquipmentTransmitter, RadioCategory::DistanceMeasuringEquipment, RadioCategory::Link16Terminal, RadioCategory::Link11Terminal, RadioCategory::Link11BTerminal, RadioCategory::EPLRSSADLTerminal, RadioCategory::F22IntraFlightDataLink, RadioCategory::F35MultifunctionAdvancedDataLink, RadioCategory::SINCGARSTerminal, RadioCategory::LBandSATCOMTerminal, RadioCategory::IBSTerminal, RadioCategory::GPS, RadioCategory::TacticalVideo, RadioCategory::AirtoAirMissileDatalink, RadioCategory::Link16SurrogateforNonNATOTDLTerminal, RadioCategory::MQ19CBandLOSDatalink, RadioCategory::MQ19KuBandSATCOMDatalink, RadioCategory::AirtoGroundWeaponDatalink, RadioCategory::AutomaticIdentificationSystem, RadioCategory::JPALSDataLink, RadioCategory::CombatSearchandRescueRadio, RadioCategory::CounterUnmannedAircraftSystemRadio, RadioCategory::EmergencyPositionIndicatingRadioBeacons, RadioCategory::ElectronicAttackSystems, RadioCategory::TacticalTargetingNetworkTechnology], |v| v as u64), scan: None },
  EnumRow { name: "RadioSubcategory", bits: 8, default: 0, codes: &[("Other", 0), ("JointElectronicsTypeDesignationSystemNonspecificSeries", 1), ("ManufacturerDesignation", 2), ("NationalDesignation", 3), ("JETDSARCSet1", 11), ("JETDSARCSet2", 12), ("JETDSARCSet3", 13), ("JETDSARCSet4", 14), ("JETDSBRCSet1", 15), ("JETDSBRCSet2", 16), ("JETDSBRCSet3", 17), ("JETDSBRCSet4", 18), ("JETDSCRCSet1", 19), ("JETDSCRCSet2", 20), ("JETDSCRCSet3", 21), ("JETDSCRCSet4", 22), ("JETDSDRCSet1", 23), ("JETDSDRCSet2", 24), ("JETDSDRCSet3", 25), ("JETDSDRCSet4", 26), ("JETDSFRCSet1", 27), ("JETDSFRCSet2", 28), ("JETDSFRCSet3", 29), ("JETDSFRCSet4", 30), ("JETDSGRCSet1", 31), ("JETDSGRCSet2", 32), ("JETDSGRCSet3", 33), ("JETDSGRCSet4", 34), ("JETDSKRCSet1", 35), ("JETDSKRCSet2", 36), ("JETDSKRCSet3", 37), ("JETDSKRCSet4", 38), ("JETDSMRCSet1", 39), ("JETDSMRCSet2", 40), ("JETDSMRCSet3", 41), ("JETDSMRCSet4", 42), ("JETDSPRCSet1", 43), ("JETDSPRCSet2", 44), ("JETDSPRCSet3", 45), ("JETDSPRCSet4", 46), ("JETDSSRCSet1", 47), ("JETDSSRCSet2", 48), ("JETDSSRCSet3", 49), ("JETDSSRCSet4", 50), ("JETDSTRCSet1", 51), ("JETDSTRCSet2", 52), ("JETDSTRCSet3", 53), ("JETDSTRCSet4", 54), ("JETDSVRCSet1", 55), ("JETDSVRCSet2", 56), ("JETDSVRCSet3", 57), ("JETDSVRCSet4", 58), ("JETDSWRCSet1", 59), ("JETDSWRCSet2", 60), ("JETDSWRCSet3", 61), ("JETDSWRCSet4", 62), ("JETDSZRCSet1", 63), ("JETDSZRCSet2", 64), ("JETDSZRCSet3", 65), ("JETDSZRCSet4", 66)], actual: || vec![RadioSubcategory::Other as u64, RadioSubcategory::JointElectronicsTypeDesignationSystemNonspecificSeries as u64, RadioSubcategory::ManufacturerDesignation as u64, RadioSubcategory::NationalDesignation as u64, RadioSubcategory::JETDSARCSet1 as u64, RadioSubcategory::JETDSARCSet2 as u64, RadioSubcategory::JETDSARCSet3 as u64, RadioSubcategory::JETDSARCSet4 as u64, RadioSubcategory::JETDSBRCSet1 as u64, RadioSubcategory::JETDSBRCSet2 as u64, RadioSubcategory::JETDSBRCSet3 as u64, RadioSubcategory::JETDSBRCSet4 as u64, RadioSubcategory::JETDSCRCSet1 as u64, RadioSubcategory::JETDSCRCSet2 as u64, RadioSubcategory::JETDSCRCSet3 as u64, RadioSubcategory::JETDSCRCSet4 as u64, RadioSubcategory::JETDSDRCSet1 as u64, RadioSubcategory::JETDSDRCSet2 as u64, RadioSubcategory::JETDSDRCSet3 as u64, RadioSubcategory::JETDSDRCSet4 as u64, RadioSubcategory::JETDSFRCSet1 as u64, RadioSubcategory::JETDSFRCSet2 as u64, RadioSubcategory::JETDSFRCSet3 as u64, RadioSubcategory::JETDSFRCSet4 as u64, RadioSubcategory::JETDSGRCSet1 as u64, RadioSubcategory::JETDSGRCSet2 as u64, RadioSubcategory::JETDSGRCSet3 as u64, RadioSubcategory::JETDSGRCSet4 as u64, RadioSubcategory::JETDSKRCSet1 as u64, RadioSubcategory::JETDSKRCSet2 as u64, RadioSubcategory::JETDSKRCSet3 as u64, RadioSubcategory::JETDSKRCSet4 as u64, RadioSubcategory::JETDSMRCSet1 as u64, RadioSubcategory::JETDSMRCSet2 as u64, RadioSubcategory::JETDSMRCSet3 as u64, RadioSubcategory::JETDSMRCSet4 as u64, RadioSubcategory::JETDSPRCSet1 as u64, RadioSubcategory::JETDSPRCSet2 as u64, RadioSubcategory::JETDSPRCSet3 as u64, RadioSubcategory::JETDSPRCSet4 as u64, RadioSubcategory::JETDSSRCSet1 as u64, RadioSubcategory::JETDSSRCSet2 as u64, RadioSubcategory::JETDSSRCSet3 as u64, RadioSubcategory::JETDSSRCSet4 as u64, RadioSubcategory::JETDSTRCSet1 as u64, RadioSubcategory::JETDSTRCSet2 as u64, RadioSubcategory::JETDSTRCSet3 as u64, RadioSubcategory::JETDSTRCSet4 as u64, RadioSubcategory::JETDSVRCSet1 as u64, RadioSubcategory::JETDSVRCSet2 as u64, RadioSubcategory::JETDSVRCSet3 as u64, RadioSubcategory::JETDSVRCSet4 as u64, RadioSubcategory::JETDSWRCSet1 as u64, RadioSubcategory::JETDSWRCSet2 as u64, RadioSubcategory::JETDSWRCSet3 as u64, RadioSubcategory::JETDSWRCSet4 as u64, RadioSubcategory::JETDSZRCSet1 as u64, RadioSubcategory::JETDSZRCSet2 as u64, RadioSubcategory::JETDSZRCSet3 as u64, RadioSubcategory::JETDSZRCSet4 as u64], decode: |mut b| { let v = RadioSubcategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <RadioSubcategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[RadioSubcategory::Other, RadioSubcategory::JointElectronicsTypeDesignationSystemNonspecificSeries, RadioSubcategory::ManufacturerDesignation, RadioSubcategory::NationalDesignation, RadioSubcategory::JETDSARCSet1, RadioSubcategory::JETDSARCSet2, RadioSubcategory::JETDSARCSet3, RadioSubcategory::JETDSARCSet4, RadioSubcategory::JETDSBRCSet1, RadioSubcategory::JETDSBRCSet2, RadioSubcategory::JETDSBRCSet3, RadioSubcategory::JETDSBRCSet4, RadioSubcategory::JETDSCRCSet1, RadioSubcategory::JETDSCRCSet2, RadioSubcategory::JETDSCRCSet3, RadioSubcategory::JETDSCRCSet4, RadioSubcategory::JETDSDRCSet1, RadioSubcategory::JETDSDRCSet2, RadioSubcategory::JETDSDRCSet3, RadioSubcategory::JETDSDRCSet4, RadioSubcategory::JETDSFRCSet1, RadioSubcategory::JETDSFRCSet2, RadioSubcategory::JETDSFRCSet3, RadioSubcategory::JETDSFRCSet4, RadioSubcategory::JETDSGRCSet1, RadioSubcategory::JETDSGRCSet2, RadioSubcategory::JETDSGRCSet3, RadioSubcategory::JETDSGRCSet4, RadioSubcategory::JETDSKRCSet1, RadioSubcategory::JETDSKRCSet2, RadioSubcategory::JETDSKRCSet3, RadioSubcategory::JETDSKRCSet4, RadioSubcategory::JETDSMRCSet1, RadioSubcategory::JETDSMRCSet2, RadioSubcategory::JETDSMRCSet3, RadioSubcategory::JETDSMRCSet4, RadioSubcategory::JETDSPRCSet1, RadioSubcategory::JETDSPRCSet2, RadioSubcategory::JETDSPRCSet3, RadioSubcategory::JETDSPRCSet4, RadioSubcategory::JETDSSRCSet1, RadioSubcategory::JETDSSRCSet2, RadioSubcategory::JETDSSRCSet3, RadioSubcategory::JETDSSRCSet4, RadioSubcategory::JETDSTRCSet1, RadioSubcategory::JETDSTRCSet2, RadioSubcategory::JETDSTRCSet3, RadioSubcategory::JETDSTRCSet4, RadioSubcategory::JETDSVRCSet1, RadioSubcategory::JETDSVRCSet2, RadioSubcategory::JETDSVRCSet3, RadioSubcategory::JETDSVRCSet4, RadioSubcategory::JETDSWRCSet1, RadioSubcategory::JETDSWRCSet2, RadioSubcategory::JETDSWRCSet3, RadioSubcategory::JETDSWRCSet4, RadioSubcategory::JETDSZRCSet1, RadioSubcategory::JETDSZRCSet2, RadioSubcategory::JETDSZRCSet3, RadioSubcategory::JETDSZRCSet4], |v| v as u64), scan: None },
  EnumRow { name: "ExpendableAirCategory", bits: 8, default: 0, codes: &[("Other", 0), ("Chaff", 1), ("Flare", 2), ("CombinedChaffandFlare", 3), ("ActiveEmitter", 4), ("PassiveDecoy", 5), ("WingedDecoy", 6), ("SignalIlluminationFlare", 7), ("SmokeGenerator", 8), ("CombinedFlareandSmokeGenerator", 12), ("SARNightLight", 13), ("SARBuoy", 14)], actual: || vec![ExpendableAirCategory::Other as u64, ExpendableAirCategory::Chaff as u64, ExpendableAirCategory::Flare as u64, ExpendableAirCategory::CombinedChaffandFlare as u64, ExpendableAirCategory::ActiveEmitter as u64, ExpendableAirCategory::PassiveDecoy as u64, ExpendableAirCategory::WingedDecoy as u64, ExpendableAirCategory::SignalIlluminationFlare as u64, ExpendableAirCategory::SmokeGenerator as u64, ExpendableAirCategory::CombinedFlareandSmokeGenerator as u64, ExpendableAirCategory::SARNightLight as u64, ExpendableAirCategory::SARBuoy as u64], decode: |mut b| { let v = ExpendableAirCategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ExpendableAirCategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ExpendableAirCategory::Other, ExpendableAirCategory::Chaff, ExpendableAirCategory::Flare, ExpendableAirCategory::CombinedChaffandFlare, ExpendableAirCategory::ActiveEmitter, ExpendableAirCategory::PassiveDecoy, ExpendableAirCategory::WingedDecoy, ExpendableAirCategory::SignalIlluminationFlare, ExpendableAirCategory::SmokeGenerator, ExpendableAirCategory::CombinedFlareandSmokeGenerator, ExpendableAirCategory::SARNightLight, ExpendableAirCategory::SARBuoy], |v| v as u64), scan: None },
  EnumRow { name: "ExpendableSurfaceCategory", bits: 8, default: 0, codes: &[("Other", 0), ("Flare", 2), ("ActiveEmitter", 4), ("PassiveDecoy", 5), ("SmokeGenerator", 8), ("CombinedFlareandSmokeGenerator", 12), ("SARBuoy", 14)], actual: || vec![ExpendableSurfaceCategory::Other as u64, ExpendableSurfaceCategory::Flare as u64, ExpendableSurfaceCategory::ActiveEmitter as u64, ExpendableSurfaceCategory::PassiveDecoy as u64, ExpendableSurfaceCategory::SmokeGenerator as u64, ExpendableSurfaceCategory::CombinedFlareandSmokeGenerator as u64, ExpendableSurfaceCategory::SARBuoy as u64], decode: |mut b| { let v = ExpendableSurfaceCategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ExpendableSurfaceCategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ExpendableSurfaceCategory::Other, ExpendableSurfaceCategory::Flare, ExpendableSurfaceCategory::ActiveEmitter, ExpendableSurfaceCategory::PassiveDecoy, ExpendableSurfaceCategory::SmokeGenerator, ExpendableSurfaceCategory::CombinedFlareandSmokeGenerator, ExpendableSurfaceCategory::SARBuoy], |v| v as u64), scan: None },
  EnumRow { name: "ExpendableSubsurfaceCategory", bits: 8, default: 0, codes: &[("Other", 0), ("Activeemitter", 4), ("Passivedecoy", 5), ("Signal", 7), ("NoiseMakerDecoy", 9), ("BubbleMakerDecoy", 10), ("MultiModeDecoy", 11)], actual: || vec![ExpendableSubsurfaceCategory::Other as u64, ExpendableSubsurfaceCategory::Activeemitter as u64, ExpendableSubsurfaceCategory::Passivedecoy as u64, ExpendableSubsurfaceCategory::Signal as u64, ExpendableSubsurfaceCategory::NoiseMakerDecoy as u64, ExpendableSubsurfaceCategory::BubbleMakerDecoy as u64, ExpendableSubsurfaceCategory::MultiModeDecoy as u64], decode: |mut b| { let v = ExpendableSubsurfaceCategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ExpendableSubsurfaceCategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ExpendableSubsurfaceCategory::Other, ExpendableSubsurfaceCategory::Activeemitter, ExpendableSubsurfaceCategory::Passivedecoy, ExpendableSubsurfaceCategory::Signal, ExpendableSubsurfaceCategory::NoiseMakerDecoy, ExpendableSubsurfaceCategory::BubbleMakerDecoy, ExpendableSubsurfaceCategory::MultiModeDecoy], |v| v as u64), scan: None },
  EnumRow { name: "SensorEmitterCategory", bits: 8, default: 0, codes: &[("Other", 0), ("Multispectral", 1), ("RFActive", 2), ("RFPassive", 3), ("Optical", 4), ("ElectroOptical", 5), ("Seismic", 6), ("Chemicalpointdetector", 7), ("Chemicalstandoff", 8), ("Thermal", 9), ("AcousticActive", 10), ("AcousticPassive", 11), ("ContactPressure", 12), ("ElectroMagneticRadiation", 13), ("ParticleRadiation", 14), ("Magnetic", 15), ("Gravitational", 16)], actual: || vec![SensorEmitterCategory::Other as u64, SensorEmitterCategory::Multispectral as u64, SensorEmitterCategory::RFActive as u64, SensorEmitterCategory::RFPassive as u64, SensorEmitterCategory::Optical as u64, SensorEmitterCategory::ElectroOptical as u64, SensorEmitterCategory::Seismic as u64, SensorEmitterCategory::Chemicalpointdetector as u64, SensorEmitterCategory::Chemicalstandoff as u64, SensorEmitterCategory::Thermal as u64, SensorEmitterCategory::AcousticActive as u64, SensorEmitterCategory::AcousticPassive as u64, SensorEmitterCategory::ContactPressure as u64, SensorEmitterCategory::ElectroMagneticRadiation as u64, SensorEmitterCategory::ParticleRadiation as u64, SensorEmitterCategory::Magnetic as u64, SensorEmitterCategory::Gravitational as u64], decode: |mut b| { let v = SensorEmitterCategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SensorEmitterCategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SensorEmitterCategory::Other, SensorEmitterCategory::Multispectral, SensorEmitterCategory::RFActive, SensorEmitterCategory::RFPassive, SensorEmitterCategory::Optical, SensorEmitterCategory::ElectroOptical, SensorEmitterCategory::Seismic, SensorEmitterCategory::Chemicalpointdetector, SensorEmitterCategory::Chemicalstandoff, SensorEmitterCategory::Thermal, SensorEmitterCategory::AcousticActive, SensorEmitterCategory::AcousticPassive, SensorEmitterCategory::ContactPressure, SensorEmitterCategory::ElectroMagneticRadiation, SensorEmitterCategory::ParticleRadiation, SensorEmitterCategory::Magnetic, SensorEmitterCategory::Gravitational], |v| v as u64), scan: None },
  EnumRow { name: "Country", bits: 16, default: 0, codes: &[("Other", 0), ("Afghanistan", 1), ("Albania", 2), ("Algeria", 3), ("AmericanSamoa", 4), ("Andorra", 5), ("Angola", 6), ("Anguilla", 7), ("Antarctica", 8), ("AntiguaandBarbuda", 9), ("Argentina", 10), ("Aruba", 11), ("AshmoreandCartierIslands", 12), ("Australia", 13), ("Austria", 14), ("Bahamas", 15), ("Bahrain", 16), ("BakerIsland", 17), ("Bangladesh", 18), ("Barbados", 19), ("BassasdaIndia", 20), ("Belgium", 21), ("Belize", 22), ("Benin", 23), ("Bermuda", 24), ("Bhutan", 25), ("Bolivia", 26), ("Botswana", 27), ("BouvetIsland", 28), ("Brazil", 29), ("BritishIndianOceanTerritory", 30), ("VirginIslandsBritish", 31), ("BruneiDarussalam", 32), ("Bulgaria", 33), ("BurkinaFaso", 34), ("Myanmar", 35), ("Burundi", 36), ("Cambodia", 37), ("Cameroon", 38), ("Canada", 39), ("CaboVerde", 40), ("CaymanIslands", 41), ("CentralAfricanRepublic", 42), ("Chad", 43), ("Chile", 44), ("ChinaPeoplesRepublicof", 45), ("ChristmasIsland", 46), ("Cocos", 47), ("Colombia", 48), ("Comoros", 49), ("Congo", 50), ("CookIslands", 51), ("CoralSeaIslands", 52), ("CostaRica", 53), ("Cuba", 54), ("Cyprus", 55), ("Czechoslovakia", 56), ("Denmark", 57), ("Djibouti", 58), ("Dominica", 59), ("DominicanRepublic", 60), ("Ecuador", 61), ("Egypt", 62), ("ElSalvador", 63), ("EquatorialGuinea", 64), ("Ethiopia", 65), ("EuropaIsland", 66), ("FalklandIslands", 67), ("FaroeIslands", 68), ("Fiji", 69), ("Finland", 70), ("France", 71), ("FrenchGuiana", 72), ("FrenchPolynesia", 73), ("FrenchSouthernTerritories", 74), ("Gabon", 75), ("GambiaThe", 76), ("GazaStrip", 77), ("Germany", 78), ("Ghana", 79), ("Gibraltar", 80), ("GloriosoIslands", 81), ("Greece", 82), ("Greenland", 83), ("Grenada", 84), ("Guadeloupe", 85), ("Guam", 86), ("Guatemala", 87), ("Guernsey", 88), ("Guinea", 89), ("GuineaBissau", 90), ("Guyana", 91), ("Haiti", 92), ("HeardIslandandMcDonaldIslands", 93), ("Honduras", 94), ("HongKong", 95), ("HowlandIsland", 96), ("Hungary", 97), ("Iceland", 98), ("India", 99), ("Indonesia", 100), ("Iran", 101), ("Iraq", 102), ("Ireland", 104), ("Israel", 105), ("Italy", 106), ("CotedIvoire", 107), ("Jamaica", 108), ("JanMayen", 109), ("Japan", 110), ("JarvisIsland", 111), ("Jersey", 112), ("JohnstonAtoll", 113), ("Jordan", 114), ("JuandeNovaIsland", 115), ("Kenya", 116), ("KingmanReef", 117), ("Kiribati", 118), ("KoreaDemocraticPeoplesRepublicOf", 119), ("KoreaRepublicOf", 120), ("Kuwait", 121), ("LaoPeoplesDemocraticRepublic", 122), ("Lebanon", 123), ("Lesotho", 124), ("Liberia", 125), ("Libya", 126), ("Liechtenstein", 127), ("Luxembourg", 128), ("Madagascar", 129), ("Macao", 130), ("Malawi", 131), ("Malaysia", 132), ("Maldives", 133), ("Mali", 134), ("Malta", 135), ("IsleofMan", 136), ("MarshallIslands", 137), ("Martinique", 138), ("Mauritania", 139), ("Mauritius", 140), ("Mayotte", 141), ("Mexico", 142), ("Micronesia", 143), ("Monaco", 144), ("Mongolia", 145), ("Montserrat", 146), ("Morocco", 147), ("Mozambique", 148), ("Namibia", 149), ("Nauru", 150), ("NavassaIsland", 151), ("Nepal", 152), ("Netherlands", 153), ("NetherlandsAntilles", 154), ("NewCaledonia", 155), ("NewZealand", 156), ("Nicaragua", 157), ("Niger", 158), ("Nigeria", 159), ("Niue", 160), ("NorfolkIsland", 161), ("NorthernMarianaIslands", 162), ("Norway", 163), ("Oman", 164), ("Pakistan", 165), ("PalmyraAtoll", 166), ("Panama", 168), ("PapuaNewGuinea", 169), ("ParacelIslands", 170), ("Paraguay", 171), ("Peru", 172), ("Philippines", 173), ("Pitcairn", 174), ("Poland", 175), ("Portugal", 176), ("PuertoRico", 177), ("Qatar", 178), ("Reunion", 179), ("Romania", 180), ("Rwanda", 181), ("SaintKittsandNevis", 182), ("SaintHelenaAscensionandTristandaCunha", 183), ("SaintLucia", 184), ("SaintPierreandMiquelon", 185), ("SaintVincentandtheGrenadines", 186), ("SanMarino", 187), ("SaoTomeandPrincipe", 188), ("SaudiArabia", 189), ("Senegal", 190), ("Seychelles", 191), ("SierraLeone", 192), ("Singapore", 193), ("SolomonIslands", 194), ("Somalia", 195), ("SouthGeorgiaandtheSouthSandwichIslands", 196), ("SouthAfrica", 197), ("Spain", 198), ("SpratlyIslands", 199), ("SriLanka", 200), ("Sudan", 201), ("Suriname", 202), ("Svalbard", 203), ("Eswatini", 204), ("Sweden", 205), ("Switzerland", 206), ("SyrianArabRepublic", 207), ("TaiwanProvinceofChina", 208), ("TanzaniaUnitedRepublicof", 209), ("Thailand", 210), ("Togo", 211), ("Tokelau", 212), ("Tonga", 213), ("TrinidadandTobago", 214), ("TromelinIsland", 215), ("Palau", 216), ("Tunisia", 217), ("Turkey", 218), ("TurksandCaicosIslands", 219), ("Tuvalu", 220), ("Uganda", 221), ("Russia", 222), ("UnitedArabEmirates", 223), ("UnitedKingdomofGreatBritainandNorthernIreland", 224), ("UnitedStatesofAmerica", 225), ("Uruguay", 226), ("Vanuatu", 227), ("HolySee", 228), ("Venezuela", 229), ("VietNam", 230), ("VirginIslandsUS", 231), ("WakeIsland", 232), ("WallisandFutuna", 233), ("WesternSahara", 234), ("WestBank", 235), ("Samoa", 236), ("Yemen", 237), ("SerbiaandMontenegro_", 240), ("Zaire", 241), ("Zambia", 242), ("Zimbabwe", 243), ("Armenia", 244), ("Azerbaijan", 245), ("Belarus", 246), ("BosniaandHerzegovina", 247), ("ClippertonIsland", 248), ("Croatia", 249), ("Estonia", 250), ("Georgia", 251), ("Kazakhstan", 252), ("Kyrgyzstan", 253), ("Latvia", 254), ("Lithuania", 255), ("NorthMacedonia", 256), ("MidwayIslands", 257), ("Moldova", 258), ("Montenegro", 259), ("Russia_", 260), ("SerbiaAndMontenegro__", 261), ("Slovenia", 262), ("Tajikistan", 263), ("Turkmenistan", 264), ("Ukraine", 265), ("Uzbekistan", 266), ("CzechRepublic", 267), ("Slovakia", 268), ("AalandIslands", 269), ("BonaireSintEustatiusandSaba", 270), ("CongoDemocraticRepublicOfThe", 271), ("Curacao", 272), ("Eritrea", 273), ("SaintBarthelemy", 274), ("SaintMartin", 275), ("Serbia", 276), ("SintMaarten", 277), ("SouthSudan", 278), ("SvalbardandJanMayen", 279), ("TimorLeste", 280), ("UnitedStatesMinorOutlyingIslands", 281), ("PalestineStateof", 282)], actual: || vec![Country::Other as u64, Country::Afghanistan as u64, Country::Albania as u64, Country::Algeria as u64, Country::AmericanSamoa as u64, Country::Andorra as u64, Country::Angola as u64, Country::Anguilla as u64, Country::Antarctica as u64, Country::AntiguaandBarbuda as u64, Country::Argentina as u64, Country::Aruba as u64, Country::AshmoreandCartierIslands as u64, Country::Australia as u64, Country::Austria as u64, Country::Bahamas as u64, Country::Bahrain as u64, Country::BakerIsland as u64, Country::Bangladesh as u64, Country::Barbados as u64, Country::BassasdaIndia as u64, Country::Belgium as u64, Country::Belize as u64, Country::Benin as u64, Country::Bermuda as u64, Country::Bhutan as u64, Country::Bolivia as u64, Country::Botswana as u64, Country::BouvetIsland as u64, Country::Brazil as u64, Country::BritishIndianOceanTerritory as u64, Country::VirginIslandsBritish as u64, Country::BruneiDarussalam as u64, Country::Bulgaria as u64, Country::BurkinaFaso as u64, Country::Myanmar as u64, Country::Burundi as u64, Country::Cambodia as u64, Country::Cameroon as u64, Country::Canada as u64, Country::CaboVerde as u64, Country::CaymanIslands as u64, Country::CentralAfricanRepublic as u64, Country::Chad as u64, Country::Chile as u64, Country::ChinaPeoplesRepublicof as u64, Country::ChristmasIsland as u64, Country::Cocos as u64, Country::Colombia as u64, Country::Comoros as u64, Country::Congo as u64, Country::CookIslands as u64, Country::CoralSeaIslands as u64, Country::CostaRica as u64, Country::Cuba as u64, Country::Cyprus as u64, Country::Czechoslovakia as u64, Country::Denmark as u64, Country::Djibouti as u64, Country::Dominica as u64, Country::DominicanRepublic as u64, Country::Ecuador as u64, Country::Egypt as u64, Country::ElSalvador as u64, Country::EquatorialGuinea as u64, Country::Ethiopia as u64, Country::EuropaIsland as u64, Country::FalklandIslands as u64, Country::FaroeIslands as u64, Country::Fiji as u64, Country::Finland as u64, Country::France as u64, Country::FrenchGuiana as u64, Country::FrenchPolynesia as u64, Country::FrenchSouthernTerritories as u64, Country::Gabon as u64, Country::GambiaThe as u64, Country::GazaStrip as u64, Country::Germany as u64, Country::Ghana as u64, Country::Gibraltar as u64, Country::GloriosoIslands as u64, Country::Greece as u64, Country::Greenland as u64, Country::Grenada as u64, Country::Guadeloupe as u64, Country::Guam as u64, Country::Guatemala as u64, Country::Guernsey as u64, Country::Guinea as u64, Country::GuineaBissau as u64, Country::Guyana as u64, Country::Haiti as u64, Country::HeardIslandandMcDonaldIslands as u64, Country::Honduras as u64, Country::HongKong as u64, Country::HowlandIsland as u64, Country::Hungary as u64, Country::Iceland as u64, Country::India as u64, Country::Indonesia as u64, Country::Iran as u64, Country::Iraq as u64, Country::Ireland as u64, Country::Israel as u64, Country::Italy as u64, Country::CotedIvoire as u64, Country::Jamaica as u64, Country::JanMayen as u64, Country::Japan as u64, Country::JarvisIsland as u64, Country::Jersey as u64, Country::JohnstonAtoll as u64, Country::Jordan as u64, Country::JuandeNovaIsland as u64, Country::Kenya as u64, Country::KingmanReef as u64, Country::Kiribati as u64, Country::KoreaDemocraticPeoplesRepublicOf as u64, Country::KoreaRepublicOf as u64, Country::Kuwait as u64, Country::LaoPeoplesDemocraticRepublic as u64, Country::Lebanon as u64, Country::Lesotho as u64, Country::Liberia as u64, Country::Libya as u64, Country::Liechtenstein as u64, Country::Luxembourg as u64, Country::Madagascar as u64, Country::Macao as u64, Country::Malawi as u64, Country::Malaysia as u64, Country::Maldives as u64, Country::Mali as u64, Country::Malta as u64, Country::IsleofMan as u64, Country::MarshallIslands as u64, Country::Martinique as u64, Country::Mauritania as u64, Country::Mauritius as u64, Country::Mayotte as u64, Country::Mexico as u64, Country::Micronesia as u64, Country::Monaco as u64, Country::Mongolia as u64, Country::Montserrat as u64, Country::Morocco as u64, Country::Mozambique as u64, Country::Namibia as u64, Country::Nauru as u64, Country::NavassaIsland as u64, Country::Nepal as u64, Country::Netherlands as u64, Country::NetherlandsAntilles as u64, Country::NewCaledonia as u64, Country::NewZealand as u64, Country::Nicaragua as u64, Country::Niger as u64, Country::Nigeria as u64, Country::Niue as u64, Country::NorfolkIsland as u64, Country::NorthernMarianaIslands as u64, Country::Norway as u64, Country::Oman as u64, Country::Pakistan as u64, Country::PalmyraAtoll as u64, Country::Panama as u64, Country::PapuaNewGuinea as u64, Country::ParacelIslands as u64, Country::Paraguay as u64, Country::Peru as u64, Country::Philippines as u64, Country::Pitcairn as u64, Country::Poland as u64, Country::Portugal as u64, Country::PuertoRico as u64, Country::Qatar as u64, Country::Reunion as u64, Country::Romania as u64, Country::Rwanda as u64, Country::SaintKittsandNevis as u64, Country::SaintHelenaAscensionandTristandaCunha as u64, Country::SaintLucia as u64, Country::SaintPierreandMiquelon as u64, Country::SaintVincentandtheGrenadines as u64, Country::SanMarino as u64, Country::SaoTomeandPrincipe as u64, Country::SaudiArabia as u64, Country::Senegal as u64, Country::Seychelles as u64, Country::SierraLeone as u64, Country::Singapore as u64, Country::SolomonIslands as u64, Country::Somalia as u64, Country::SouthGeorgiaandtheSouthSandwichIslands as u64, Country::SouthAfrica as u64, Country::Spain as u64, Country::SpratlyIslands as u64, Country::SriLanka as u64, Country::Sudan as u64, Country::Suriname as u64, Country::Svalbard as u64, Country::Eswatini as u64, Country::Sweden as u64, Country::Switzerland as u64, Country::SyrianArabRepublic as u64, Country::TaiwanProvinceofChina as u64, Country::TanzaniaUnitedRepublicof as u64, Country::Thailand as u64, Country::Togo as u64, Country::Tokelau as u64, Country::Tonga as u64, Country::TrinidadandTobago as u64, Country::TromelinIsland as u64, Country::Palau as u64, Country::Tunisia as u64, Country::Turkey as u64, Country::TurksandCaicosIslands as u64, Country::Tuvalu as u64, Country::Uganda as u64, Country::Russia as u64, Country::UnitedArabEmirates as u64, Country::UnitedKingdomofGreatBritainandNorthernIreland as u64, Country::UnitedStatesofAmerica as u64, Country::Uruguay as u64, Country::Vanuatu as u64, Country::HolySee as u64, Country::Venezuela as u64, Country::VietNam as u64, Country::VirginIslandsUS as u64, Country::WakeIsland as u64, Country::WallisandFutuna as u64, Country::WesternSahara as u64, Country::WestBank as u64, Country::Samoa as u64, Country::Yemen as u64, Country::SerbiaandMontenegro_ as u64, Country::Zaire as u64, Country::Zambia as u64, Country::Zimbabwe as u64, Country::Armenia as u64, Country::Azerbaijan as u64, Country::Belarus as u64, Country::BosniaandHerzegovina as u64, Country::ClippertonIsland as u64, Country::Croatia as u64, Country::Estonia as u64, Country::Georgia as u64, Country::Kazakhstan as u64, Country::Kyrgyzstan as u64, Country::Latvia as u64, Country::Lithuania as u64, Country::NorthMacedonia as u64, Country::MidwayIslands as u64, Country::Moldova as u64, Country::Montenegro as u64, Country::Russia_ as u64, Country::SerbiaAndMontenegro__ as u64, Country::Slovenia as u64, Country::Tajikistan as u64, Country::Turkmenistan as u64, Country::Ukraine as u64, Country::Uzbekistan as u64, Country::CzechRepublic as u64, Country::Slovakia as u64, Country::AalandIslands as u64, Country::BonaireSintEustatiusandSaba as u64, Country::CongoDemocraticRepublicOfThe as u64, Country::Curacao as u64, Country::Eritrea as u64, Country::SaintBarthelemy as u64, Country::SaintMartin as u64, Country::Serbia as u64, Country::SintMaarten as u64, Country::SouthSudan as u64, Country::SvalbardandJanMayen as u64, Country::TimorLeste as u64, Country::UnitedStatesMinorOutlyingIslands as u64, Country::PalestineStateof as u64], decode: |mut b| { let v = Country::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Country as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Country::Other, Country::Afghanistan, Country::Albania, Country::Algeria, Country::AmericanSamoa, Country::Andorra, Country::Angola, Country::Anguilla, Country::Antarctica, Country::AntiguaandBarbuda, Country::Argentina, Country::Aruba, Country::AshmoreandCartierIslands, Country::Australia, Country::Austria, Country::Bahamas, Country::Bahrain, Country::BakerIsland, Country::Bangladesh, Country::Barbados, Country::BassasdaIndia, Country::Belgium, Country::Belize, Country::Benin, Country::Bermuda, Country::Bhutan, Country::Bolivia, Country::Botswana, Country::BouvetIsland, Country::Brazil, Country::BritishIndianOceanTerritory, Country::VirginIslandsBritish, Country::BruneiDarussalam, Country::Bulgaria, Country::BurkinaFaso, Country::Myanmar, Country::Burundi, Country::Cambodia, Country::Cameroon, Country::Canada, Country::CaboVerde, Country::CaymanIslands, Country::CentralAfricanRepublic, Country::Chad, Country::Chile, Country::ChinaPeoplesRepublicof, Country::ChristmasIsland, Country::Cocos, Country::Colombia, Country::Comoros, Country::Congo, Country::CookIslands, Country::CoralSeaIslands, Country::CostaRica, Country::Cuba, Country::Cyprus, Country::Czechoslovakia, Country::Denmark, Country::Djibouti, Country::Dominica, Country::DominicanRepublic, Country::Ecuador, Country::Egypt, Country::ElSalvador, Country::EquatorialGuinea, Country::Ethiopia, Country::EuropaIsland, Country::FalklandIslands, Country::FaroeIslands, Country::Fiji, Country::Finland, Country::France, Country::FrenchGuiana, Country::FrenchPolynesia, Country::FrenchSouthernTerritories, Country::Gabon, Country::GambiaThe, Country::GazaStrip, Country::Germany, Country::Ghana, Country::Gibraltar, Country::GloriosoIslands, Country::Greece, Country::Greenland, Country::Grenada, Country::Guadeloupe, Country::Guam, Country::Guatemala, Country::Guernsey, Country::Guinea, Country::GuineaBissau, Country::Guyana, Country::Haiti, Country::HeardIslandandMcDonaldIslands, Country::Honduras, Country::HongKong, Country::HowlandIsland, Country::Hungary, Country::Iceland, Country::India, Country::Indonesia, Country::Iran, Country::Iraq, Country::Ireland, Country::Israel, Country::Italy, Country::CotedIvoire, Country::Jamaica, Country::JanMayen, Country::Japan, Country::JarvisIsland, Country::Jersey, Country::JohnstonAtoll, Country::Jordan, Country::JuandeNovaIsland, Country::Kenya, Country::KingmanReef, Country::Kiribati, Country::KoreaDemocraticPeoplesRepublicOf, Country::KoreaRepublicOf, Country::Kuwait, Country::LaoPeoplesDemocraticRepublic, Country::Lebanon, Country::Lesotho, Country::Liberia, Country::Libya, Country::Liechtenstein, Country::Luxembourg, Country::Madagascar, Country::Macao, Country::Malawi, Country::Malaysia, Country::Maldives, Country::Mali, Country::Malta, Country::IsleofMan, Country::MarshallIslands, Country::Martinique, Country::Mauritania, Country::Mauritius, Country::Mayotte, Country::Mexico, Country::Micronesia, Country::Monaco, Country::Mongolia, Country::Montserrat, Country::Morocco, Country::Mozambique, Country::Namibia, Country::Nauru, Country::NavassaIsland, Country::Nepal, Country::Netherlands, Country::NetherlandsAntilles, Country::NewCaledonia, Country::NewZealand, Country::Nicaragua, Country::Niger, Country::Nigeria, Country::Niue, Country::NorfolkIsland, Country::NorthernMarianaIslands, Country::Norway, Country::Oman, Country::Pakistan, Country::PalmyraAtoll, Country::Panama, Country::PapuaNewGuinea, Country::ParacelIslands, Country::Paraguay, Country::Peru, Country::Philippines, Country::Pitcairn, Country::Poland, Country::Portugal, Country::PuertoRico, Country::Qatar, Country::Reunion, Country::Romania, Country::Rwanda, Country::SaintKittsandNevis, Country::SaintHelenaAscensionandTristandaCunha, Country::SaintLucia, Country::SaintPierreandMiquelon, Country::SaintVincentandtheGrenadines, Country::SanMarino, Country::SaoTomeandPrincipe, Country::SaudiArabia, Country::Senegal, Country::Seychelles, Country::SierraLeone, Country::Singapore, Country::SolomonIslands, Country::Somalia, Country::SouthGeorgiaandtheSouthSandwichIslands, Country::SouthAfrica, Country::Spain, Country::SpratlyIslands, Country::SriLanka, Country::Sudan, Country::Suriname, Country::Svalbard, Country::Eswatini, Country::Sweden, Country::Switzerland, Country::SyrianArabRepublic, Country::TaiwanProvinceofChina, Country::TanzaniaUnitedRepublicof, Country::Thailand, Country::Togo, Country::Tokelau, Country::Tonga, Country::TrinidadandTobago, Country::TromelinIsland, Country::Palau, Country::Tunisia, Country::Turkey, Country::TurksandCaicosIslands, Country::Tuvalu, Country::Uganda, Country::Russia, Country::UnitedArabEmirates, Country::UnitedKingdomofGreatBritainandNorthernIreland, Country::UnitedStatesofAmerica, Country::Uruguay, Country::Vanuatu, Country::HolySee, Country::Venezuela, Country::VietNam, Country::VirginIslandsUS, Country::WakeIsland, Country::WallisandFutuna, Country::WesternSahara, Country::WestBank, Country::Samoa, Country::Yemen, Country::SerbiaandMontenegro_, Country::Zaire, Country::Zambia, Country::Zimbabwe, Country::Armenia, Country::Azerbaijan, Country::Belarus, Country::BosniaandHerzegovina, Country::ClippertonIsland, Country::Croatia, Country::Estonia, Country::Georgia, Country::Kazakhstan, Country::Kyrgyzstan, Country::Latvia, Country::Lithuania, Country::NorthMacedonia, Country::MidwayIslands, Country::Moldova, Country::Montenegro, Country::Russia_, Country::SerbiaAndMontenegro__, Country::Slovenia, Country::Tajikistan, Country::Turkmenistan, Country::Ukraine, Country::Uzbekistan, Country::CzechRepublic, Country::Slovakia, Country::AalandIslands, Country::BonaireSintEustatiusandSaba, Country::CongoDemocraticRepublicOfThe, Country::Curacao, Country::Eritrea, Country::SaintBarthelemy, Country::SaintMartin, Country::Serbia, Country::SintMaarten, Country::SouthSudan, Country::SvalbardandJanMayen, Country::TimorLeste, Country::UnitedStatesMinorOutlyingIslands, Country::PalestineStateof], |v| v as u64), scan: None },
  EnumRow { name: "DeadReckoningAlgorithm", bits: 8, default: 0, codes: &[("Other", 0), ("StaticNonmovingEntity", 1), ("DRMConstantVelocityLowAccelerationLinearMotionEntity", 2), ("DRMConstantVelocityLowAccelerationLinearMotionEntitywithExtrapolationofOrientation", 3), ("DRMHighSpeedorManeuveringEntitywithExtrapolationofOrientation", 4), ("DRMHighSpeedorManeuveringEntity", 5), ("DRMSimilartoFPWexceptinBodyCoordinates", 6), ("DRMSimilartoRPWexceptinBodyCoordinates", 7), ("DRMSimilartoRVWexceptinBodyCoordinates", 8), ("DRMSimilartoFVWexceptinBodyCoordinates", 9)], actual: || vec![DeadReckoningAlgorithm::Other as u64, DeadReckoningAlgorithm::StaticNonmovingEntity as u64, DeadReckoningAlgorithm::DRMConstantVelocityLowAccelerationLinearMotionEntity as u64, DeadReckoningAlgorithm::DRMConstantVelocityLowAccelerationLinearMotionEntitywithExtrapolationofOrientation as u64, DeadReckoningAlgorithm::DRMHighSpeedorManeuveringEntitywithExtrapolationofOrientation as u64, DeadReckoningAlgorithm::DRMHighSpeedorManeuveringEntity as u64, DeadReckoningAlgorithm::DRMSimilartoFPWexceptinBodyCoordinates as u64, DeadReckoningAlgorithm::DRMSimilartoRPWexceptinBodyCoordinates as u64, DeadReckoningAlgorithm::DRMSimilartoRVWexceptinBodyCoordinates as u64, DeadReckoningAlgorithm::DRMSimilartoFVWexceptinBodyCoordinates as u64], decode: |mut b| { let v = DeadReckoningAlgorithm::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DeadReckoningAlgorithm as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_DEADRECKONINGALGORITHM[i], b), |mut b| <DeadReckoningAlgorithm as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_DEADRECKONINGALGORITHM[i]))), pairs: || crate::core::pairs(&[DeadReckoningAlgorithm::Other, DeadReckoningAlgorithm::StaticNonmovingEntity, DeadReckoningAlgorithm::DRMConstantVelocityLowAccelerationLinearMotionEntity, DeadReckoningAlgorithm::DRMConstantVelocityLowAccelerationLinearMotionEntitywithExtrapolationofOrientation, DeadReckoningAlgorithm::DRMHighSpeedorManeuveringEntitywithExtrapolationofOrientation, DeadReckoningAlgorithm::DRMHighSpeedorManeuveringEntity, DeadReckoningAlgorithm::DRMSimilartoFPWexceptinBodyCoordinates, DeadReckoningAlgorithm::DRMSimilartoRPWexceptinBodyCoordinates, DeadReckoningAlgorithm::DRMSimilartoRVWexceptinBodyCoordinates, DeadReckoningAlgorithm::DRMSimilartoFVWexceptinBodyCoordinates], |v| v as u64), scan: None },
  EnumRow { name: "EntityMarkingCharacterSet", bits: 8, default: 0, codes: &[("Unused", 0), ("ASCII", 1), ("USArmyMarking", 2), ("DigitChevron", 3)], actual: || vec![EntityMarkingCharacterSet::Unused as u64, EntityMarkingCharacterSet::ASCII as u64, EntityMarkingCharacterSet::USArmyMarking as u64, EntityMarkingCharacterSet::DigitChevron as u64], decode: |mut b| { let v = EntityMarkingCharacterSet::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EntityMarkingCharacterSet as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EntityMarkingCharacterSet::Unused, EntityMarkingCharacterSet::ASCII, EntityMarkingCharacterSet::USArmyMarking, EntityMarkingCharacterSet::DigitChevron], |v| v as u64), scan: None },
  EnumRow { name: "EntityCapabilities", bits: 32, default: 0, codes: &[("LandPlatformEntityCapabilities", 0), ("AirPlatformEntityCapabilities", 1), ("SurfacePlatformEntityCapabilities", 2), ("SubsurfacePlatformEntityCapabilities", 3), ("SpacePlatformEntityCapabilities", 4), ("MunitionEntityCapabilities", 5), ("LifeFormsEntityCapabilities", 6), ("EnvironmentalEntityCapabilities", 7), ("CulturalFeatureEntityCapabilities", 8), ("SupplyEntityCapabilities", 9), ("RadioEntityCapabilities", 10), ("ExpendableEntityCapabilities", 11), ("SensorEmitterEntityCapabilities", 12)], actual: || vec![EntityCapabilities::LandPlatformEntityCapabilities as u64, EntityCapabilities::AirPlatformEntityCapabilities as u64, EntityCapabilities::SurfacePlatformEntityCapabilities as u64, EntityCapabilities::SubsurfacePlatformEntityCapabilities as u64, EntityCapabilities::SpacePlatformEntityCapabilities as u64, EntityCapabilities::MunitionEntityCapabilities as u64, EntityCapabilities::LifeFormsEntityCapabilities as u64, EntityCapabilities::EnvironmentalEntityCapabilities as u64, EntityCapabilities::CulturalFeatureEntityCapabilities as u64, EntityCapabilities::SupplyEntityCapabilities as u64, EntityCapabilities::RadioEntityCapabilities as u64, EntityCapabilities::ExpendableEntityCapabilities as u64, EntityCapabilities::SensorEmitterEntityCapabilities as u64], decode: |mut b| { let v = EntityCapabilities::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EntityCapabilities as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_ENTITYCAPABILITIES[i], b), |mut b| <EntityCapabilities as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_ENTITYCAPABILITIES[i]))), pairs: || crate::core::pairs(&[EntityCapabilities::LandPlatformEntityCapabilities, EntityCapabilities::AirPlatformEntityCapabilities, EntityCapabilities::SurfacePlatformEntityCapabilities, EntityCapabilities::SubsurfacePlatformEntityCapabilities, EntityCapabilities::SpacePlatformEntityCapabilities, EntityCapabilities::MunitionEntityCapabilities, EntityCapabilities::LifeFormsEntityCapabilities, EntityCapabilities::EnvironmentalEntityCapabilities, EntityCapabilities::CulturalFeatureEntityCapabilities, EntityCapabilities::SupplyEntityCapabilities, EntityCapabilities::RadioEntityCapabilities, EntityCapabilities::ExpendableEntityCapabilities, EntityCapabilities::SensorEmitterEntityCapabilities], |v| v as u64), scan: Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| EntityCapabilities::deserialize(&mut b) as u64)) },
  EnumRow { name: "VariableParameterRecordType", bits: 8, default: 0, codes: &[("ArticulatedPart", 0), ("AttachedPart", 1), ("Separation", 2), ("EntityType", 3), ("EntityAssociation", 4)], actual: || vec![VariableParameterRecordType::ArticulatedPart as u64, VariableParameterRecordType::AttachedPart as u64, VariableParameterRecordType::Separation as u64, VariableParameterRecordType::EntityType as u64, VariableParameterRecordType::EntityAssociation as u64], decode: |mut b| { let v = VariableParameterRecordType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <VariableParameterRecordType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[VariableParameterRecordType::ArticulatedPart, VariableParameterRecordType::AttachedPart, VariableParameterRecordType::Separation, VariableParameterRecordType::EntityType, VariableParameterRecordType::EntityAssociation], |v| v as u64), scan: None },
  EnumRow { name: "AttachedParts", bits: 32, default: 0, codes: &[("NothingEmpty", 0), ("SequentialIDsformodelspecificstations", 1), ("FuselageStations", 512), ("LeftwingStations", 640), ("RightwingStations", 768), ("M16A42rifle", 896), ("M249SAW", 897), ("M60Machinegun", 898), ("M203GrenadeLauncher", 899), ("M136AT4", 900), ("M47Dragon", 901), ("AAWSMJavelin", 902), ("M18A1ClaymoreMine", 903), ("MK19GrenadeLauncher", 904), ("M2MachineGun", 905)], actual: || vec![AttachedParts::NothingEmpty as u64, AttachedParts::SequentialIDsformodelspecificstations as u64, AttachedParts::FuselageStations as u64, AttachedParts::LeftwingStations as u64, AttachedParts::RightwingStations as u64, AttachedParts::M16A42rifle as u64, AttachedParts::M249SAW as u64, AttachedParts::M60Machinegun as u64, AttachedParts::M203GrenadeLauncher as u64, AttachedParts::M136AT4 as u64, AttachedParts::M47Dragon as u64, AttachedParts::AAWSMJavelin as u64, AttachedParts::M18A1ClaymoreMine as u64, AttachedParts::MK19GrenadeLauncher as u64, AttachedParts::M2MachineGun as u64], decode: |mut b| { let v = AttachedParts::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AttachedParts as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AttachedParts::NothingEmpty, AttachedParts::SequentialIDsformodelspecificstations, AttachedParts::FuselageStations, AttachedParts::LeftwingStations, AttachedParts::RightwingStations, AttachedParts::M16A42rifle, AttachedParts::M249SAW, AttachedParts::M60Machinegun, AttachedParts::M203GrenadeLauncher, AttachedParts::M136AT4, AttachedParts::M47Dragon, AttachedParts::AAWSMJavelin, AttachedParts::M18A1ClaymoreMine, AttachedParts::MK19GrenadeLauncher, AttachedParts::M2MachineGun], |v| v as u64), scan: Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| AttachedParts::deserialize(&mut b) as u64)) },
  EnumRow { name: "ArticulatedPartsTypeMetric", bits: 8, default: 0, codes: &[("NotSpecified", 0), ("Position", 1), ("PositionRate", 2), ("Extension", 3), ("ExtensionRate", 4), ("X", 5), ("XRate", 6), ("Y", 7), ("YRate", 8), ("Z", 9), ("ZRate", 10), ("Azimuth", 11), ("AzimuthRate", 12), ("Elevation", 13), ("ElevationRate", 14), ("Rotation1", 15), ("RotationRate", 16)], actual: || vec![ArticulatedPartsTypeMetric::NotSpecified as u64, ArticulatedPartsTypeMetric::Position as u64, ArticulatedPartsTypeMetric::PositionRate as u64, ArticulatedPartsTypeMetric::Extension as u64, ArticulatedPartsTypeMetric::ExtensionRate as u64, ArticulatedPartsTypeMetric::X as u64, ArticulatedPartsTypeMetric::XRate as u64, ArticulatedPartsTypeMetric::Y as u64, ArticulatedPartsTypeMetric::YRate as u64, ArticulatedPartsTypeMetric::Z as u64, ArticulatedPartsTypeMetric::ZRate as u64, ArticulatedPartsTypeMetric::Azimuth as u64, ArticulatedPartsTypeMetric::AzimuthRate as u64, ArticulatedPartsTypeMetric::Elevation as u64, ArticulatedPartsTypeMetric::ElevationRate as u64, ArticulatedPartsTypeMetric::Rotation1 as u64, ArticulatedPartsTypeMetric::RotationRate as u64], decode: |mut b| { let v = ArticulatedPartsTypeMetric::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ArticulatedPartsTypeMetric as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ArticulatedPartsTypeMetric::NotSpecified, ArticulatedPartsTypeMetric::Position, ArticulatedPartsTypeMetric::PositionRate, ArticulatedPartsTypeMetric::Extension, ArticulatedPartsTypeMetric::ExtensionRate, ArticulatedPartsTypeMetric::X, ArticulatedPartsTypeMetric::XRate, ArticulatedPartsTypeMetric::Y, ArticulatedPartsTypeMetric::YRate, ArticulatedPartsTypeMetric::Z, ArticulatedPartsTypeMetric::ZRate, ArticulatedPartsTypeMetric::Azimuth, ArticulatedPartsTypeMetric::AzimuthRate, ArticulatedPartsTypeMetric::Elevation, ArticulatedPartsTypeMetric::ElevationRate, ArticulatedPartsTypeMetric::Rotation1, ArticulatedPartsTypeMetric::RotationRate], |v| v as u64), scan: None },
  EnumRow { name: "ArticulatedPartsTypeClass", bits: 32, default: 0, codes: &[("NotSpecified", 0), ("Rudder", 1024), ("LeftFlap", 1056), ("RightFlap", 1088), ("LeftAileron", 1120), ("RightAileron", 1152), ("HelicopterMainRotor", 1184), ("HelicopterTailRotor", 1216), ("OtherAircraftControlSurfacesDefinedasNeeded", 1248), ("PropellerNumber1", 1280), ("PropellerNumber2", 1312), ("PropellerNumber3", 1344), ("PropellerNumber4", 1376), ("LeftStabilator", 1408), ("RightStabilator", 1440), ("LeftRuddervator", 1472), ("RightRuddervator", 1504), ("LeftLeadingEdgeFlapSlat", 1536), ("RightLeadingEdgeFlapSlat", 1568), ("LeftElevator", 1600), ("RightElevator", 1632), ("CanardLeft", 1664), ("CanardRight", 1696), ("ElevonInnerLeft", 1728), ("ElevonInnerRight", 1760), ("ElevonMiddleLeft", 1792), ("ElevonMiddleRight", 1824), ("ElevonOuterLeft", 1856), ("ElevonOuterRight", 1888), ("Canopy", 1920), ("SpoilerLeft", 1952), ("SpoilerRight", 1984), ("Periscope", 2048), ("GenericAntenna", 2080), ("Snorkel", 2112), ("OtherExtendiblePartsDefinedasNeeded", 2144), ("DivePlaneSailLeft", 2176), ("DivePlaneSailRight", 2208), ("DivePlaneBowLeft", 2240), ("DivePlaneBowRight", 2272), ("DivePlaneSternLeft", 2304), ("DivePlaneSternRight", 2336), ("LandingGear", 3072), ("TailHook", 3104), ("SpeedBrake", 3136), ("LeftDoorofPrimaryWeaponBay", 3168), ("RightDoorofPrimaryWeaponBay", 3200), ("TankorAPCHatch", 3232), ("Wingsweep", 3264), ("BridgeLauncher", 3296), ("BridgeSection1", 3328), ("BridgeSection2", 3360), ("BridgeSection3", 3392), ("PrimaryBlade1", 3424), ("PrimaryBlade2", 3456), ("PrimaryBoom", 3488), ("PrimaryLauncherArm", 3520), ("OtherFixedPositionPartsDefinedasNeeded", 3552), ("LandingGearNose", 3584), ("LandingGearLeftMain", 3616), ("LandingGearRightMain", 3648), ("DoorsofLeftSideWeaponBay", 3680), ("DoorsofRightSideWeaponBay", 3712), ("SpotSearchLight1", 3744), ("SpotSearchLight2", 3776), ("SpotSearchLight3", 3808), ("SpotSearchLight4", 3840), ("LandingLight", 3872), ("PrimaryTurretNumber1", 4096), ("PrimaryTurretNumber2", 4128), ("PrimaryTurretNumber3", 4160), ("PrimaryTurretNumber4", 4192), ("PrimaryTurretNumber5", 4224), ("PrimaryTurretNumber6", 4256), ("PrimaryTurretNumber7", 4288), ("PrimaryTurretNumber8", 4320), ("PrimaryTurretNumber9", 4352), ("PrimaryTurretNumber10", 4384), ("PrimaryGunNumber1", 4416), ("PrimaryGunNumber2", 4448), ("PrimaryGunNumber3", 4480), ("PrimaryGunNumber4", 4512), ("PrimaryGunNumber5", 4544), ("PrimaryGunNumber6", 4576), ("PrimaryGunNumber7", 4608), ("PrimaryGunNumber8", 4640), ("PrimaryGunNumber9", 4672), ("PrimaryGunNumber10", 4704), ("PrimaryLauncher1", 4736), ("PrimaryLauncher2", 4768), ("PrimaryLauncher3", 4800), ("PrimaryLauncher4", 4832), ("PrimaryLauncher5", 4864), ("PrimaryLauncher6", 4896), ("PrimaryLauncher7", 4928), ("PrimaryLauncher8", 4960), ("PrimaryLauncher9", 4992), ("PrimaryLauncher10", 5024), ("PrimaryDefenseSystems1", 5056), ("PrimaryDefenseSystems2", 5088), ("PrimaryDefenseSystems3", 5120), ("PrimaryDefenseSystems4", 5152), ("PrimaryDefenseSystems5", 5184), ("PrimaryDefenseSystems6", 5216), ("PrimaryDefenseSystems7", 5248), ("PrimaryDefenseSystems8", 5280), ("PrimaryDefenseSystems9", 5312), ("PrimaryDefenseSystems10", 5344), ("PrimaryRadar1", 5376), ("PrimaryRadar2", 5408), ("PrimaryRadar3", 5440), ("PrimaryRadar4", 5472), ("PrimaryRadar5", 5504), ("PrimaryRadar6", 5536), ("PrimaryRadar7", 5568), ("PrimaryRadar8", 5600), ("PrimaryRadar9", 5632), ("PrimaryRadar10", 5664), ("SecondaryTurretNumber1", 5696), ("SecondaryTurretNumber2", 5728), ("SecondaryTurretNumber3", 5760), ("SecondaryTurretNumber4", 5792), ("SecondaryTurretNumber5", 5824), ("SecondaryTurretNumber6", 5856), ("SecondaryTurretNumber7", 5888), ("SecondaryTurretNumber8", 5920), ("SecondaryTurretNumber9", 5952), ("SecondaryTurretNumber10", 5984), ("SecondaryGunNumber1", 6016), ("SecondaryGunNumber2", 6048), ("SecondaryGunNumber3", 6080), ("SecondaryGunNumber4", 6112), ("SecondaryGunNumber5", 6144), ("SecondaryGunNumber6", 6176), ("SecondaryGunNumber7", 6208), ("SecondaryGunNumber8", 6240), ("SecondaryGunNumber9", 6272), ("SecondaryGunNumber10", 6304), ("SecondaryLauncher1", 6336), ("SecondaryLauncher2", 6368), ("SecondaryLauncher3", 6400), ("SecondaryLauncher4", 6432), ("SecondaryLauncher5", 6464), ("SecondaryLauncher6", 6496), ("SecondaryLauncher7", 6528), ("SecondaryLauncher8", 6560), ("SecondaryLauncher9", 6592), ("SecondaryLauncher10", 6624), ("SecondaryDefenseSystems1", 6656), ("SecondaryDefenseSystems2", 6688), ("SecondaryDefenseSystems3", 6720), ("SecondaryDefenseSystems4", 6752), ("SecondaryDefenseSystems5", 6784), ("SecondaryDefenseSystems6", 6816), ("SecondaryDefenseSystems7", 6848), ("SecondaryDefenseSystems8", 6880), ("SecondaryDefenseSystems9", 6912), ("SecondaryDefenseSystems10", 6944), ("SecondaryRadar1", 6976), ("SecondaryRadar2", 7008), ("SecondaryRadar3", 7040), ("SecondaryRadar4", 7072), ("SecondaryRadar5", 7104), ("SecondaryRadar6", 7136), ("SecondaryRadar7", 7168), ("SecondaryRadar8", 7200), ("SecondaryRadar9", 7232), ("SecondaryRadar10", 7264), ("DeckElevator1", 7296), ("DeckElevator2", 7328), ("Catapult1", 7360), ("Catapult2", 7392), ("JetBlastDeflector1", 7424), ("JetBlastDeflector2", 7456), ("ArrestorWires1", 7488), ("ArrestorWires2", 7520), ("ArrestorWires3", 7552), ("WingFold", 7584), ("FuselageFold", 7616), ("MainCargoDoor", 7648), ("CargoRamp", 7680), ("AirtoAirRefuelingBoom", 7712), ("PrimaryAerialRefuelingReceptacleDoor", 7744), ("SecondaryAerialRefuelingReceptacleDoor", 7776), ("AerialRefuelingReceptacleLatch", 7808), ("CargoDoor1", 7840), ("CargoDoor2", 7872), ("CargoDoor3", 7904), ("CargoDoor4", 7936), ("CargoDoor5", 7968), ("CargoDoor6", 8000), ("CargoDoor7", 8032), ("CargoDoor8", 8064), ("CargoDoor9", 8096), ("CargoDoor10", 8128), ("CentreRefuellingDrogue", 8160), ("PortRefuellingDrogue", 8192), ("StarboardRefuellingDrogue", 8224), ("SubmarineEngineExhaustMast", 8256), ("SubmarineMast1", 8288), ("SubmarineMast2", 8320), ("SubmarineMast3", 8352), ("SubmarineMast4", 8384), ("SubmarineMast5", 8416), ("SubmarineMast6", 8448), ("SubmarineMast7", 8480), ("SubmarineMast8", 8512), ("SubmarineMast9", 8544), ("SubmarineMast10", 8576), ("VectoredThrustNozzle", 8608), ("LeftDooroftheLeftWeaponBay", 8640), ("RightDooroftheLeftWeaponBay", 8672), ("LeftDooroftheRightWeaponBay", 8704), ("RightDooroftheRightWeaponBay", 8736), ("GunDoor", 8768), ("CountermeasureDoorLeft", 8800), ("CountermeasureDoorRight", 8832), ("HookDoorForward", 8864), ("HookDoorAft", 8896), ("LiftFanUpperDoor", 8928), ("LiftFanLowerDoorLeft", 8960), ("LiftFanLowerDoorRight", 8992), ("RefuelProbeDoor", 9024), ("LeftEngineNacelle", 9056), ("RightEngineNacelle", 9088), ("_1stLeftWheel", 9120), ("_1stRightWheel", 9152), ("_2ndLeftWheel", 9184), ("_2ndRightWheel", 9216), ("_3rdLeftWheel", 9248), ("_3rdRightWheel", 9280), ("_4thLeftWheel", 9312), ("_4thRightWheel", 9344), ("_5thLeftWheel", 9376), ("_5thRightWheel", 9408), ("_6thLeftWheel", 9440), ("_6thRightWheel", 9472), ("_7thLeftWheel", 9504), ("_7thRightWheel", 9536), ("_8thLeftWheel", 9568), ("_8thRightWheel", 9600), ("_9thLeftWheel", 9632), ("_9thRightWheel", 9664), ("_10thLeftWheel", 9696), ("_10thRightWheel", 9728), ("RefuelingProbe", 9760), ("SteeringWheel", 9792), ("CraneBody", 9824), ("CraneArm1", 9856), ("CraneArm2", 9888), ("CraneArm3", 9920), ("CraneBoom", 9952), ("CraneHook", 9984), ("Trailer", 10016), ("RollerLeft", 10048), ("RollerRight", 10080), ("PrimaryGunRecoil", 10112), ("SecondaryGunRecoil", 10144)], actual: || vec![ArticulatedPartsTypeClass::NotSpecified as u64, ArticulatedPartsTypeClass::Rudder as u64, ArticulatedPartsTypeClass::LeftFlap as u64, ArticulatedPartsTypeClass::RightFlap as u64, ArticulatedPartsTypeClass::LeftAileron as u64, ArticulatedPartsTypeClass::RightAileron as u64, ArticulatedPartsTypeClass::HelicopterMainRotor as u64, ArticulatedPartsTypeClass::HelicopterTailRotor as u64, ArticulatedPartsTypeClass::OtherAircraftControlSurfacesDefinedasNeeded as u64, ArticulatedPartsTypeClass::PropellerNumber1 as u64, ArticulatedPartsTypeClass::PropellerNumber2 as u64, ArticulatedPartsTypeClass::PropellerNumber3 as u64, ArticulatedPartsTypeClass::PropellerNumber4 as u64, ArticulatedPartsTypeClass::LeftStabilator as u64, ArticulatedPartsTypeClass::RightStabilator as u64, ArticulatedPartsTypeClass::LeftRuddervator as u64, ArticulatedPartsTypeClass::RightRuddervator as u64, ArticulatedPartsTypeClass::LeftLeadingEdgeFlapSlat as u64, ArticulatedPartsTypeClass::RightLeadingEdgeFlapSlat as u64, ArticulatedPartsTypeClass::LeftElevator as u64, ArticulatedPartsTypeClass::RightElevator as u64, ArticulatedPartsTypeClass::CanardLeft as u64, ArticulatedPartsTypeClass::CanardRight as u64, ArticulatedPartsTypeClass::ElevonInnerLeft as u64, ArticulatedPartsTypeClass::ElevonInnerRight as u64, ArticulatedPartsTypeClass::ElevonMiddleLeft as u64, ArticulatedPartsTypeClass::ElevonMiddleRight as u64, ArticulatedPartsTypeClass::ElevonOuterLeft as u64, ArticulatedPartsTypeClass::ElevonOuterRight as u64, ArticulatedPartsTypeClass::Canopy as u64, ArticulatedPartsTypeClass::SpoilerLeft as u64, ArticulatedPartsTypeClass::SpoilerRight as u64, ArticulatedPartsTypeClass::Periscope as u64, ArticulatedPartsTypeClass::GenericAntenna as u64, ArticulatedPartsTypeClass::Snorkel as u64, ArticulatedPartsTypeClass::OtherExtendiblePartsDefinedasNeeded as u64, ArticulatedPartsTypeClass::DivePlaneSailLeft as u64, ArticulatedPartsTypeClass::DivePlaneSailRight as u64, ArticulatedPartsTypeClass::DivePlaneBowLeft as u64, ArticulatedPartsTypeClass::DivePlaneBowRight as u64, ArticulatedPartsTypeClass::DivePlaneSternLeft as u64, ArticulatedPartsTypeClass::DivePlaneSternRight as u64, ArticulatedPartsTypeClass::LandingGear as u64, ArticulatedPartsTypeClass::TailHook as u64, ArticulatedPartsTypeClass::SpeedBrake as u64, ArticulatedPartsTypeClass::LeftDoorofPrimaryWeaponBay as u64, ArticulatedPartsTypeClass::RightDoorofPrimaryWeaponBay as u64, ArticulatedPartsTypeClass::TankorAPCHatch as u64, ArticulatedPartsTypeClass::Wingsweep as u64, ArticulatedPartsTypeClass::BridgeLauncher as u64, ArticulatedPartsTypeClass::BridgeSection1 as u64, ArticulatedPartsTypeClass::BridgeSection2 as u64, ArticulatedPartsTypeClass::BridgeSection3 as u64, ArticulatedPartsTypeClass::PrimaryBlade1 as u64, ArticulatedPartsTypeClass::PrimaryBlade2 as u64, ArticulatedPartsTypeClass::PrimaryBoom as u64, ArticulatedPartsTypeClass::PrimaryLauncherArm as u64, ArticulatedPartsTypeClass::OtherFixedPositionPartsDefinedasNeeded as u64, ArticulatedPartsTypeClass::LandingGearNose as u64, ArticulatedPartsTypeClass::LandingGearLeftMain as u64, ArticulatedPartsTypeClass::LandingGearRightMain as u64, ArticulatedPartsTypeClass::DoorsofLeftSideWeaponBay as u64, ArticulatedPartsTypeClass::DoorsofRightSideWeaponBay as u64, ArticulatedPartsTypeClass::SpotSearchLight1 as u64, ArticulatedPartsTypeClass::SpotSearchLight2 as u64, ArticulatedPartsTypeClass::SpotSearchLight3 as u64, ArticulatedPartsTypeClass::SpotSearchLight4 as u64, ArticulatedPartsTypeClass::LandingLight as u64, ArticulatedPartsTypeClass::PrimaryTurretNumber1 as u64, ArticulatedPartsTypeClass::PrimaryTurretNumber2 as u64, ArticulatedPartsTypeClass::PrimaryTurretNumber3 as u64, ArticulatedPartsTypeClass::PrimaryTurretNumber4 as u64, ArticulatedPartsTypeClass::PrimaryTurretNumber5 as u64, ArticulatedPartsTypeClass::PrimaryTurretNumber6 as u64, ArticulatedPartsTypeClass::PrimaryTurretNumber7 as u64, ArticulatedPartsTypeClass::PrimaryTurretNumber8 as u64, ArticulatedPartsTypeClass::PrimaryTurretNumber9 as u64, ArticulatedPartsTypeClass::PrimaryTurretNumber10 as u64, ArticulatedPartsTypeClass::PrimaryGunNumber1 as u64, ArticulatedPartsTypeClass::PrimaryGunNumber2 as u64, ArticulatedPartsTypeClass::PrimaryGunNumber3 as u64, ArticulatedPartsTypeClass::PrimaryGunNumber4 as u64, ArticulatedPartsTypeClass::PrimaryGunNumber5 as u64, ArticulatedPartsTypeClass::PrimaryGunNumber6 as u64, ArticulatedPartsTypeClass::PrimaryGunNumber7 as u64, ArticulatedPartsTypeClass::PrimaryGunNumber8 as u64, ArticulatedPartsTypeClass::PrimaryGunNumber9 as u64, ArticulatedPartsTypeClass::PrimaryGunNumber10 as u64, ArticulatedPartsTypeClass::PrimaryLauncher1 as u64, ArticulatedPartsTypeClass::PrimaryLauncher2 as u64, ArticulatedPartsTypeClass::PrimaryLauncher3 as u64, ArticulatedPartsTypeClass::PrimaryLauncher4 as u64, ArticulatedPartsTypeClass::PrimaryLauncher5 as u64, ArticulatedPartsTypeClass::PrimaryLauncher6 as u64, ArticulatedPartsTypeClass::PrimaryLauncher7 as u64, ArticulatedPartsTypeClass::PrimaryLauncher8 as u64, ArticulatedPartsTypeClass::PrimaryLauncher9 as u64, ArticulatedPartsTypeClass::PrimaryLauncher10 as u64, ArticulatedPartsTypeClass::PrimaryDefenseSystems1 as u64, ArticulatedPartsTypeClass::PrimaryDefenseSystems2 as u64, ArticulatedPartsTypeClass::PrimaryDefenseSystems3 as u64, ArticulatedPartsTypeClass::PrimaryDefenseSystems4 as u64, ArticulatedPartsTypeClass::PrimaryDefenseSystems5 as u64, ArticulatedPartsTypeClass::PrimaryDefenseSystems6 as u64, ArticulatedPartsTypeClass::PrimaryDefenseSystems7 as u64, ArticulatedPartsTypeClass::PrimaryDefenseSystems8 as u64, ArticulatedPartsTypeClass::PrimaryDefenseSystems9 as u64, ArticulatedPartsTypeClass::PrimaryDefenseSystems10 as u64, ArticulatedPartsTypeClass::PrimaryRadar1 as u64, ArticulatedPartsTypeClass::PrimaryRadar2 as u64, ArticulatedPartsTypeClass::PrimaryRadar3 as u64, ArticulatedPartsTypeClass::PrimaryRadar4 as u64, ArticulatedPartsTypeClass::PrimaryRadar5 as u64, ArticulatedPartsTypeClass::PrimaryRadar6 as u64, ArticulatedPartsTypeClass::PrimaryRadar7 as u64, ArticulatedPartsTypeClass::PrimaryRadar8 as u64, ArticulatedPartsTypeClass::PrimaryRadar9 as u64, ArticulatedPartsTypeClass::PrimaryRadar10 as u64, ArticulatedPartsTypeClass::SecondaryTurretNumber1 as u64, ArticulatedPartsTypeClass::SecondaryTurretNumber2 as u64, ArticulatedPartsTypeClass::SecondaryTurretNumber3 as u64, ArticulatedPartsTypeClass::SecondaryTurretNumber4 as u64, ArticulatedPartsTypeClass::SecondaryTurretNumber5 as u64, ArticulatedPartsTypeClass::SecondaryTurretNumber6 as u64, ArticulatedPartsTypeClass::SecondaryTurretNumber7 as u64, ArticulatedPartsTypeClass::SecondaryTurretNumber8 as u64, ArticulatedPartsTypeClass::SecondaryTurretNumber9 as u64, ArticulatedPartsTypeClass::SecondaryTurretNumber10 as u64, ArticulatedPartsTypeClass::SecondaryGunNumber1 as u64, ArticulatedPartsTypeClass::SecondaryGunNumber2 as u64, ArticulatedPartsTypeClass::SecondaryGunNumber3 as u64, ArticulatedPartsTypeClass::SecondaryGunNumber4 as u64, ArticulatedPartsTypeClass::SecondaryGunNumber5 as u64, ArticulatedPartsTypeClass::SecondaryGunNumber6 as u64, ArticulatedPartsTypeClass::SecondaryGunNumber7 as u64, ArticulatedPartsTypeClass::SecondaryGunNumber8 as u64, ArticulatedPartsTypeClass::SecondaryGunNumber9 as u64, ArticulatedPartsTypeClass::SecondaryGunNumber10 as u64, ArticulatedPartsTypeClass::SecondaryLauncher1 as u64, ArticulatedPartsTypeClass::SecondaryLauncher2 as u64, ArticulatedPartsTypeClass::SecondaryLauncher3 as u64, ArticulatedPartsTypeClass::SecondaryLauncher4 as u64, ArticulatedPartsTypeClass::SecondaryLauncher5 as u64, ArticulatedPartsTypeClass::SecondaryLauncher6 as u64, ArticulatedPartsTypeClass::SecondaryLauncher7 as u64, ArticulatedPartsTypeClass::SecondaryLauncher8 as u64, ArticulatedPartsTypeClass::SecondaryLauncher9 as u64, ArticulatedPartsTypeClass::SecondaryLauncher10 as u64, ArticulatedPartsTypeClass::SecondaryDefenseSystems1 as u64, ArticulatedPartsTypeClass::SecondaryDefenseSystems2 as u64, ArticulatedPartsTypeClass::SecondaryDefenseSystems3 as u64, ArticulatedPartsTypeClass::SecondaryDefenseSystems4 as u64, ArticulatedPartsTypeClass::SecondaryDefenseSystems5 as u64, ArticulatedPartsTypeClass::SecondaryDefenseSystems6 as u64, ArticulatedPartsTypeClass::SecondaryDefenseSystems7 as u64, ArticulatedPartsTypeClass::SecondaryDefenseSystems8 as u64, ArticulatedPartsTypeClass::SecondaryDefenseSystems9 as u64, ArticulatedPartsTypeClass::SecondaryDefenseSystems10 as u64, ArticulatedPartsTypeClass::SecondaryRadar1 as u64, ArticulatedPartsTypeClass::SecondaryRadar2 as u64, ArticulatedPartsTypeClass::SecondaryRadar3 as u64, ArticulatedPartsTypeClass::SecondaryRadar4 as u64, ArticulatedPartsTypeClass::SecondaryRadar5 as u64, ArticulatedPartsTypeClass::SecondaryRadar6 as u64, ArticulatedPartsTypeClass::SecondaryRadar7 as u64, ArticulatedPartsTypeClass::SecondaryRadar8 as u64, ArticulatedPartsTypeClass::SecondaryRadar9 as u64, ArticulatedPartsTypeClass::SecondaryRadar10 as u64, ArticulatedPartsTypeClass::DeckElevator1 as u64, ArticulatedPartsTypeClass::DeckElevator2 as u64, ArticulatedPartsTypeClass::Catapult1 as u64, ArticulatedPartsTypeClass::Catapult2 as u64, ArticulatedPartsTypeClass::JetBlastDeflector1 as u64, ArticulatedPartsTypeClass::JetBlastDeflector2 as u64, ArticulatedPartsTypeClass::ArrestorWires1 as u64, ArticulatedPartsTypeClass::ArrestorWires2 as u64, ArticulatedPartsTypeClass::ArrestorWires3 as u64, ArticulatedPartsTypeClass::WingFold as u64, ArticulatedPartsTypeClass::FuselageFold as u64, ArticulatedPartsTypeClass::MainCargoDoor as u64, ArticulatedPartsTypeClass::CargoRamp as u64, ArticulatedPartsTypeClass::AirtoAirRefuelingBoom as u64, ArticulatedPartsTypeClass::PrimaryAerialRefuelingReceptacleDoor as u64, ArticulatedPartsTypeClass::SecondaryAerialRefuelingReceptacleDoor as u64, ArticulatedPartsTypeClass::AerialRefuelingReceptacleLatch as u64, ArticulatedPartsTypeClass::CargoDoor1 as u64, ArticulatedPartsTypeClass::CargoDoor2 as u64, ArticulatedPartsTypeClass::CargoDoor3 as u64, ArticulatedPartsTypeClass::CargoDoor4 as u64, ArticulatedPartsTypeClass::CargoDoor5 as u64, ArticulatedPartsTypeClass::CargoDoor6 as u64, ArticulatedPartsTypeClass::CargoDoor7 as u64, ArticulatedPartsTypeClass::CargoDoor8 as u64, ArticulatedPartsTypeClass::CargoDoor9 as u64, ArticulatedPartsTypeClass::CargoDoor10 as u64, ArticulatedPartsTypeClass::CentreRefuellingDrogue as u64, ArticulatedPartsTypeClass::PortRefuellingDrogue as u64, ArticulatedPartsTypeClass::StarboardRefuellingDrogue as u64, ArticulatedPartsTypeClass::SubmarineEngineExhaustMast as u64, ArticulatedPartsTypeClass::SubmarineMast1 as u64, ArticulatedPartsTypeClass::SubmarineMast2 as u64, ArticulatedPartsTypeClass::SubmarineMast3 as u64, ArticulatedPartsTypeClass::SubmarineMast4 as u64, ArticulatedPartsTypeClass::SubmarineMast5 as u64, ArticulatedPartsTypeClass::SubmarineMast6 as u64, ArticulatedPartsTypeClass::SubmarineMast7 as u64, ArticulatedPartsTypeClass::SubmarineMast8 as u64, ArticulatedPartsTypeClass::SubmarineMast9 as u64, ArticulatedPartsTypeClass::SubmarineMast10 as u64, ArticulatedPartsTypeClass::VectoredThrustNozzle as u64, ArticulatedPartsTypeClass::LeftDooroftheLeftWeaponBay as u64, ArticulatedPartsTypeClass::RightDooroftheLeftWeaponBay as u64, ArticulatedPartsTypeClass::LeftDooroftheRightWeaponBay as u64, ArticulatedPartsTypeClass::RightDooroftheRightWeaponBay as u64, ArticulatedPartsTypeClass::GunDoor as u64, ArticulatedPartsTypeClass::CountermeasureDoorLeft as u64, ArticulatedPartsTypeClass::CountermeasureDoorRight as u64, ArticulatedPartsTypeClass::HookDoorForward as u64, ArticulatedPartsTypeClass::HookDoorAft as u64, ArticulatedPartsTypeClass::LiftFanUpperDoor as u64, ArticulatedPartsTypeClass::LiftFanLowerDoorLeft as u64, ArticulatedPartsTypeClass::LiftFanLowerDoorRight as u64, ArticulatedPartsTypeClass::RefuelProbeDoor as u64, ArticulatedPartsTypeClass::LeftEngineNacelle as u64, ArticulatedPartsTypeClass::RightEngineNacelle as u64, ArticulatedPartsTypeClass::_1stLeftWheel as u64, ArticulatedPartsTypeClass::_1stRightWheel as u64, ArticulatedPartsTypeClass::_2ndLeftWheel as u64, ArticulatedPartsTypeClass::_2ndRightWheel as u64, ArticulatedPartsTypeClass::_3rdLeftWheel as u64, ArticulatedPartsTypeClass::_3rdRightWheel as u64, ArticulatedPartsTypeClass::_4thLeftWheel as u64, ArticulatedPartsTypeClass::_4thRightWheel as u64, ArticulatedPartsTypeClass::_5thLeftWheel as u64, ArticulatedPartsTypeClass::_5thRightWheel as u64, ArticulatedPartsTypeClass::_6thLeftWheel as u64, ArticulatedPartsTypeClass::_6thRightWheel as u64, ArticulatedPartsTypeClass::_7thLeftWheel as u64, ArticulatedPartsTypeClass::_7thRightWheel as u64, ArticulatedPartsTypeClass::_8thLeftWheel as u64, ArticulatedPartsTypeClass::_8thRightWheel as u64, ArticulatedPartsTypeClass::_9thLeftWheel as u64, ArticulatedPartsTypeClass::_9thRightWheel as u64, ArticulatedPartsTypeClass::_10thLeftWheel as u64, ArticulatedPartsTypeClass::_10thRightWheel as u64, ArticulatedPartsTypeClass::RefuelingProbe as u64, ArticulatedPartsTypeClass::SteeringWheel as u64, ArticulatedPartsTypeClass::CraneBody as u64, ArticulatedPartsTypeClass::CraneArm1 as u64, ArticulatedPartsTypeClass::CraneArm2 as u64, ArticulatedPartsTypeClass::CraneArm3 as u64, ArticulatedPartsTypeClass::CraneBoom as u64, ArticulatedPartsTypeClass::CraneHook as u64, ArticulatedPartsTypeClass::Trailer as u64, ArticulatedPartsTypeClass::RollerLeft as u64, ArticulatedPartsTypeClass::RollerRight as u64, ArticulatedPartsTypeClass::PrimaryGunRecoil as u64, ArticulatedPartsTypeClass::SecondaryGunRecoil as u64], decode: |mut b| { let v = ArticulatedPartsTypeClass::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ArticulatedPartsTypeClass as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ArticulatedPartsTypeClass::NotSpecified, ArticulatedPartsTypeClass::Rudder, ArticulatedPartsTypeClass::LeftFlap, ArticulatedPartsTypeClass::RightFlap, ArticulatedPartsTypeClass::LeftAileron, ArticulatedPartsTypeClass::RightAileron, ArticulatedPartsTypeClass::HelicopterMainRotor, ArticulatedPartsTypeClass::HelicopterTailRotor, ArticulatedPartsTypeClass::OtherAircraftControlSurfacesDefinedasNeeded, ArticulatedPartsTypeClass::PropellerNumber1, ArticulatedPartsTypeClass::PropellerNumber2, ArticulatedPartsTypeClass::PropellerNumber3, ArticulatedPartsTypeClass::PropellerNumber4, ArticulatedPartsTypeClass::LeftStabilator, ArticulatedPartsTypeClass::RightStabilator, ArticulatedPartsTypeClass::LeftRuddervator, ArticulatedPartsTypeClass::RightRuddervator, ArticulatedPartsTypeClass::LeftLeadingEdgeFlapSlat, ArticulatedPartsTypeClass::RightLeadingEdgeFlapSlat, ArticulatedPartsTypeClass::LeftElevator, ArticulatedPartsTypeClass::RightElevator, ArticulatedPartsTypeClass::CanardLeft, ArticulatedPartsTypeClass::CanardRight, ArticulatedPartsTypeClass::ElevonInnerLeft, ArticulatedPartsTypeClass::ElevonInnerRight, ArticulatedPartsTypeClass::ElevonMiddleLeft, ArticulatedPartsTypeClass::ElevonMiddleRight, ArticulatedPartsTypeClass::ElevonOuterLeft, ArticulatedPartsTypeClass::ElevonOuterRight, ArticulatedPartsTypeClass::Canopy, ArticulatedPartsTypeClass::SpoilerLeft, ArticulatedPartsTypeClass::SpoilerRight, ArticulatedPartsTypeClass::Periscope, ArticulatedPartsTypeClass::GenericAntenna, ArticulatedPartsTypeClass::Snorkel, ArticulatedPartsTypeClass::OtherExtendiblePartsDefinedasNeeded, ArticulatedPartsTypeClass::DivePlaneSailLeft, ArticulatedPartsTypeClass::DivePlaneSailRight, ArticulatedPartsTypeClass::DivePlaneBowLeft, ArticulatedPartsTypeClass::DivePlaneBowRight, ArticulatedPartsTypeClass::DivePlaneSternLeft, ArticulatedPartsTypeClass::DivePlaneSternRight, ArticulatedPartsTypeClass::LandingGear, ArticulatedPartsTypeClass::TailHook, ArticulatedPartsTypeClass::SpeedBrake, ArticulatedPartsTypeClass::LeftDoorofPrimaryWeaponBay, ArticulatedPartsTypeClass::RightDoorofPrimaryWeaponBay, ArticulatedPartsTypeClass::TankorAPCHatch, ArticulatedPartsTypeClass::Wingsweep, ArticulatedPartsTypeClass::BridgeLauncher, ArticulatedPartsTypeClass::BridgeSection1, ArticulatedPartsTypeClass::BridgeSection2, ArticulatedPartsTypeClass::BridgeSection3, ArticulatedPartsTypeClass::PrimaryBlade1, ArticulatedPartsTypeClass::PrimaryBlade2, ArticulatedPartsTypeClass::PrimaryBoom, ArticulatedPartsTypeClass::PrimaryLauncherArm, ArticulatedPartsTypeClass::OtherFixedPositionPartsDefinedasNeeded, ArticulatedPartsTypeClass::LandingGearNose, ArticulatedPartsTypeClass::LandingGearLeftMain, ArticulatedPartsTypeClass::LandingGearRightMain, ArticulatedPartsTypeClass::DoorsofLeftSideWeaponBay, ArticulatedPartsTypeClass::DoorsofRightSideWeaponBay, ArticulatedPartsTypeClass::SpotSearchLight1, ArticulatedPartsTypeClass::SpotSearchLight2, ArticulatedPartsTypeClass::SpotSearchLight3, ArticulatedPartsTypeClass::SpotSearchLight4, ArticulatedPartsTypeClass::LandingLight, ArticulatedPartsTypeClass::PrimaryTurretNumber1, ArticulatedPartsTypeClass::PrimaryTurretNumber2, ArticulatedPartsTypeClass::PrimaryTurretNumber3, ArticulatedPartsTypeClass::PrimaryTurretNumber4, ArticulatedPartsTypeClass::PrimaryTurretNumber5, ArticulatedPartsTypeClass::PrimaryTurretNumber6, ArticulatedPartsTypeClass::PrimaryTurretNumber7, ArticulatedPartsTypeClass::PrimaryTurretNumber8, ArticulatedPartsTypeClass::PrimaryTurretNumber9, ArticulatedPartsTypeClass::PrimaryTurretNumber10, ArticulatedPartsTypeClass::PrimaryGunNumber1, ArticulatedPartsTypeClass::PrimaryGunNumber2, ArticulatedPartsTypeClass::PrimaryGunNumber3, ArticulatedPartsTypeClass::PrimaryGunNumber4, ArticulatedPartsTypeClass::PrimaryGunNumber5, ArticulatedPartsTypeClass::PrimaryGunNumber6, ArticulatedPartsTypeClass::PrimaryGunNumber7, ArticulatedPartsTypeClass::PrimaryGunNumber8, ArticulatedPartsTypeClass::PrimaryGunNumber9, ArticulatedPartsTypeClass::PrimaryGunNumber10, ArticulatedPartsTypeClass::PrimaryLauncher1, ArticulatedPartsTypeClass::PrimaryLauncher2, ArticulatedPartsTypeClass::PrimaryLauncher3, ArticulatedPartsTypeClass::PrimaryLauncher4, ArticulatedPartsTypeClass::PrimaryLauncher5, ArticulatedPartsTypeClass::PrimaryLauncher6, ArticulatedPartsTypeClass::PrimaryLauncher7, ArticulatedPartsTypeClass::PrimaryLauncher8, ArticulatedPartsTypeClass::PrimaryLauncher9, ArticulatedPartsTypeClass::PrimaryLauncher10, ArticulatedPartsTypeClass::PrimaryDefenseSystems1, ArticulatedPartsTypeClass::PrimaryDefenseSystems2, ArticulatedPartsTypeClass::PrimaryDefenseSystems3, ArticulatedPartsTypeClass::PrimaryDefenseSystems4, ArticulatedPartsTypeClass::PrimaryDefenseSystems5, ArticulatedPartsTypeClass::PrimaryDefenseSystems6, ArticulatedPartsTypeClass::PrimaryDefenseSystems7, ArticulatedPartsTypeClass::PrimaryDefenseSystems8, ArticulatedPartsTypeClass::PrimaryDefenseSystems9, ArticulatedPartsTypeClass::PrimaryDefenseSystems10, ArticulatedPartsTypeClass::PrimaryRadar1, ArticulatedPartsTypeClass::PrimaryRadar2, ArticulatedPartsTypeClass::PrimaryRadar3, ArticulatedPartsTypeClass::PrimaryRadar4, ArticulatedPartsTypeClass::PrimaryRadar5, ArticulatedPartsTypeClass::PrimaryRadar6, ArticulatedPartsTypeClass::PrimaryRadar7, ArticulatedPartsTypeClass::PrimaryRadar8, ArticulatedPartsTypeClass::PrimaryRadar9, ArticulatedPartsTypeClass::PrimaryRadar10, ArticulatedPartsTypeClass::SecondaryTurretNumber1, ArticulatedPartsTypeClass::SecondaryTurretNumber2, ArticulatedPartsTypeClass::SecondaryTurretNumber3, ArticulatedPartsTypeClass::SecondaryTurretNumber4, ArticulatedPartsTypeClass::SecondaryTurretNumber5, ArticulatedPartsTypeClass::SecondaryTurretNumber6, ArticulatedPartsTypeClass::SecondaryTurretNumber7, ArticulatedPartsTypeClass::SecondaryTurretNumber8, ArticulatedPartsTypeClass::SecondaryTurretNumber9, ArticulatedPartsTypeClass::SecondaryTurretNumber10, ArticulatedPartsTypeClass::SecondaryGunNumber1, ArticulatedPartsTypeClass::SecondaryGunNumber2, ArticulatedPartsTypeClass::SecondaryGunNumber3, ArticulatedPartsTypeClass::SecondaryGunNumber4, ArticulatedPartsTypeClass::SecondaryGunNumber5, ArticulatedPartsTypeClass::SecondaryGunNumber6, ArticulatedPartsTypeClass::SecondaryGunNumber7, ArticulatedPartsTypeClass::SecondaryGunNumber8, ArticulatedPartsTypeClass::SecondaryGunNumber9, ArticulatedPartsTypeClass::SecondaryGunNumber10, ArticulatedPartsTypeClass::SecondaryLauncher1, ArticulatedPartsTypeClass::SecondaryLauncher2, ArticulatedPartsTypeClass::SecondaryLauncher3, ArticulatedPartsTypeClass::SecondaryLauncher4, ArticulatedPartsTypeClass::SecondaryLauncher5, ArticulatedPartsTypeClass::SecondaryLauncher6, ArticulatedPartsTypeClass::SecondaryLauncher7, ArticulatedPartsTypeClass::SecondaryLauncher8, ArticulatedPartsTypeClass::SecondaryLauncher9, ArticulatedPartsTypeClass::SecondaryLauncher10, ArticulatedPartsTypeClass::SecondaryDefenseSystems1, ArticulatedPartsTypeClass::SecondaryDefenseSystems2, ArticulatedPartsTypeClass::SecondaryDefenseSystems3, ArticulatedPartsTypeClass::SecondaryDefenseSystems4, ArticulatedPartsTypeClass::SecondaryDefenseSystems5, ArticulatedPartsTypeClass::SecondaryDefenseSystems6, ArticulatedPartsTypeClass::SecondaryDefenseSystems7, ArticulatedPartsTypeClass::SecondaryDefenseSystems8, ArticulatedPartsTypeClass::SecondaryDefenseSystems9, ArticulatedPartsTypeClass::SecondaryDefenseSystems10, ArticulatedPartsTypeClass::SecondaryRadar1, ArticulatedPartsTypeClass::SecondaryRadar2, ArticulatedPartsTypeClass::SecondaryRadar3, ArticulatedPartsTypeClass::SecondaryRadar4, ArticulatedPartsTypeClass::SecondaryRadar5, ArticulatedPartsTypeClass::SecondaryRadar6, ArticulatedPartsTypeClass::SecondaryRadar7, ArticulatedPartsTypeClass::SecondaryRadar8, ArticulatedPartsTypeClass::SecondaryRadar9, ArticulatedPartsTypeClass::SecondaryRadar10, ArticulatedPartsTypeClass::DeckElevator1, ArticulatedPartsTypeClass::DeckElevator2, ArticulatedPartsTypeClass::Catapult1, ArticulatedPartsTypeClass::Catapult2, ArticulatedPartsTypeClass::JetBlastDeflector1, ArticulatedPartsTypeClass::JetBlastDeflector2, ArticulatedPartsTypeClass::ArrestorWires1, ArticulatedPartsTypeClass::ArrestorWires2, ArticulatedPartsTypeClass::ArrestorWires3, ArticulatedPartsTypeClass::WingFold, ArticulatedPartsTypeClass::FuselageFold, ArticulatedPartsTypeClass::MainCargoDoor, ArticulatedPartsTypeClass::CargoRamp, ArticulatedPartsTypeClass::AirtoAirRefuelingBoom, ArticulatedPartsTypeClass::PrimaryAerialRefuelingReceptacleDoor, ArticulatedPartsTypeClass::SecondaryAerialRefuelingReceptacleDoor, ArticulatedPartsTypeClass::AerialRefuelingReceptacleLatch, ArticulatedPartsTypeClass::CargoDoor1, ArticulatedPartsTypeClass::CargoDoor2, ArticulatedPartsTypeClass::CargoDoor3, ArticulatedPartsTypeClass::CargoDoor4, ArticulatedPartsTypeClass::CargoDoor5, ArticulatedPartsTypeClass::CargoDoor6, ArticulatedPartsTypeClass::CargoDoor7, ArticulatedPartsTypeClass::CargoDoor8, ArticulatedPartsTypeClass::CargoDoor9, ArticulatedPartsTypeClass::CargoDoor10, ArticulatedPartsTypeClass::CentreRefuellingDrogue, ArticulatedPartsTypeClass::PortRefuellingDrogue, ArticulatedPartsTypeClass::StarboardRefuellingDrogue, ArticulatedPartsTypeClass::SubmarineEngineExhaustMast, ArticulatedPartsTypeClass::SubmarineMast1, ArticulatedPartsTypeClass::SubmarineMast2, ArticulatedPartsTypeClass::SubmarineMast3, ArticulatedPartsTypeClass::SubmarineMast4, ArticulatedPartsTypeClass::SubmarineMast5, ArticulatedPartsTypeClass::SubmarineMast6, ArticulatedPartsTypeClass::SubmarineMast7, ArticulatedPartsTypeClass::SubmarineMast8, ArticulatedPartsTypeClass::SubmarineMast9, ArticulatedPartsTypeClass::SubmarineMast10, ArticulatedPartsTypeClass::VectoredThrustNozzle, ArticulatedPartsTypeClass::LeftDooroftheLeftWeaponBay, ArticulatedPartsTypeClass::RightDooroftheLeftWeaponBay, ArticulatedPartsTypeClass::LeftDooroftheRightWeaponBay, ArticulatedPartsTypeClass::RightDooroftheRightWeaponBay, ArticulatedPartsTypeClass::GunDoor, ArticulatedPartsTypeClass::CountermeasureDoorLeft, ArticulatedPartsTypeClass::CountermeasureDoorRight, ArticulatedPartsTypeClass::HookDoorForward, ArticulatedPartsTypeClass::HookDoorAft, ArticulatedPartsTypeClass::LiftFanUpperDoor, ArticulatedPartsTypeClass::LiftFanLowerDoorLeft, ArticulatedPartsTypeClass::LiftFanLowerDoorRight, ArticulatedPartsTypeClass::RefuelProbeDoor, ArticulatedPartsTypeClass::LeftEngineNacelle, ArticulatedPartsTypeClass::RightEngineNacelle, ArticulatedPartsTypeClass::_1stLeftWheel, ArticulatedPartsTypeClass::_1stRightWheel, ArticulatedPartsTypeClass::_2ndLeftWheel, ArticulatedPartsTypeClass::_2ndRightWheel, ArticulatedPartsTypeClass::_3rdLeftWheel, ArticulatedPartsTypeClass::_3rdRightWheel, ArticulatedPartsTypeClass::_4thLeftWheel, ArticulatedPartsTypeClass::_4thRightWheel, ArticulatedPartsTypeClass::_5thLeftWheel, ArticulatedPartsTypeClass::_5thRightWheel, ArticulatedPartsTypeClass::_6thLeftWheel, ArticulatedPartsTypeClass::_6thRightWheel, ArticulatedPartsTypeClass::_7thLeftWheel, ArticulatedPartsTypeClass::_7thRightWheel, ArticulatedPartsTypeClass::_8thLeftWheel, ArticulatedPartsTypeClass::_8thRightWheel, ArticulatedPartsTypeClass::_9thLeftWheel, ArticulatedPartsTypeClass::_9thRightWheel, ArticulatedPartsTypeClass::_10thLeftWheel, ArticulatedPartsTypeClass::_10thRightWheel, ArticulatedPartsTypeClass::RefuelingProbe, ArticulatedPartsTypeClass::SteeringWheel, ArticulatedPartsTypeClass::CraneBody, ArticulatedPartsTypeClass::CraneArm1, ArticulatedPartsTypeClass::CraneArm2, ArticulatedPartsTypeClass::CraneArm3, ArticulatedPartsTypeClass::CraneBoom, ArticulatedPartsTypeClass::CraneHook, ArticulatedPartsTypeClass::Trailer, ArticulatedPartsTypeClass::RollerLeft, ArticulatedPartsTypeClass::RollerRight, ArticulatedPartsTypeClass::PrimaryGunRecoil, ArticulatedPartsTypeClass::SecondaryGunRecoil], |v| v as u64), scan: Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| ArticulatedPartsTypeClass::deserialize(&mut b) as u64)) },
  EnumRow { name: "MunitionDescriptorWarhead", bits: 16, default: 0, codes: &[("Other", 0), ("Cargo", 10), ("FuelAirExplosive", 20), ("GlassBeads", 30), ("_1um", 31), ("_5um", 32), ("_10um", 33), ("HighExplosive", 1000), ("HEPlastic", 1100), ("HEIncendiary", 1200), ("HEFragmentation", 1300), ("HEAntiTank", 1400), ("HEBomblets", 1500), ("HEShapedCharge", 1600), ("HEContinuousRod", 1610), ("HETungstenBall", 1615), ("HEBlastFragmentation", 1620), ("HESteerableDartswithHE", 1625), ("HEDarts", 1630), ("HEFlechettes", 1635), ("HEDirectedFragmentation", 1640), ("HESemiArmorPiercing", 1645), ("HEShapedChargeFragmentation", 1650), ("HESemiArmorPiercingFragmentation", 1655), ("HEHollowCharge", 1660), ("HEDoubleHollowCharge", 1665), ("HEGeneralPurpose", 1670), ("HEBlastPenetrator", 1675), ("HERodPenetrator", 1680), ("HEAntiPersonnel", 1685), ("HEShapedChargeFragmentationIncendiary", 1690), ("HEPenetratorBlastFragmentation", 1695), ("Smoke", 2000), ("WP", 2005), ("FOGO", 2010), ("HC", 2015), ("Illumination", 3000), ("Practice", 4000), ("Blank", 4001), ("Dummy", 4002), ("Kinetic", 5000), ("Mines", 6000), ("Nuclear", 7000), ("NuclearIMT", 7010), ("NuclearVariousYields", 7011), ("ChemicalGeneral", 8000), ("ChemicalBlisterAgent", 8100), ("HD", 8110), ("ThickenedHD", 8115), ("DustyHD", 8120), ("L", 8125), ("HN3", 8130), ("HL", 8135), ("CX", 8140), ("DMMP", 8145), ("DMHP", 8150), ("DMA", 8155), ("DEM", 8160), ("PX", 8165), ("ChemicalBloodAgent", 8200), ("AC", 8210), ("CK", 8215), ("CG", 8220), ("ChemicalNerveAgent", 8300), ("VX", 8310), ("ThickenedVX", 8315), ("DustyVX", 8320), ("GA", 8325), ("ThickenedGA", 8330), ("DustyGA", 8335), ("GB", 8340), ("ThickenedGB", 8345), ("DustyGB", 8350), ("GD", 8355), ("ThickenedGD", 8360), ("DustyGD", 8365), ("GF", 8370), ("ThickenedGF", 8375), ("DustyGF", 8380), ("SVX", 8385), ("BIS", 8410), ("TCP", 8415), ("MS", 8425), ("TEP", 8430), ("H2O", 8445), ("TO1", 8450), ("TO2", 8455), ("TO3", 8460), ("SulfurHexafluoride", 8465), ("AA", 8470), ("HF", 8475), ("Biological", 9000), ("BiologicalVirus", 9100), ("BiologicalBacteria", 9200), ("BiologicalRickettsia", 9300), ("BiologicalGeneticallyModifiedMicroorganisms", 9400), ("BiologicalToxin", 9500)], actual: || vec![MunitionDescriptorWarhead::Other as u64, MunitionDescriptorWarhead::Cargo as u64, MunitionDescriptorWarhead::FuelAirExplosive as u64, MunitionDescriptorWarhead::GlassBeads as u64, MunitionDescriptorWarhead::_1um as u64, MunitionDescriptorWarhead::_5um as u64, MunitionDescriptorWarhead::_10um as u64, MunitionDescriptorWarhead::HighExplosive as u64, MunitionDescriptorWarhead::HEPlastic as u64, MunitionDescriptorWarhead::HEIncendiary as u64, MunitionDescriptorWarhead::HEFragmentation as u64, MunitionDescriptorWarhead::HEAntiTank as u64, MunitionDescriptorWarhead::HEBomblets as u64, MunitionDescriptorWarhead::HEShapedCharge as u64, MunitionDescriptorWarhead::HEContinuousRod as u64, MunitionDescriptorWarhead::HETungstenBall as u64, MunitionDescriptorWarhead::HEBlastFragmentation as u64, MunitionDescriptorWarhead::HESteerableDartswithHE as u64, MunitionDescriptorWarhead::HEDarts as u64, MunitionDescriptorWarhead::HEFlechettes as u64, MunitionDescriptorWarhead::HEDirectedFragmentation as u64, MunitionDescriptorWarhead::HESemiArmorPiercing as u64, MunitionDescriptorWarhead::HEShapedChargeFragmentation as u64, MunitionDescriptorWarhead::HESemiArmorPiercingFragmentation as u64, MunitionDescriptorWarhead::HEHollowCharge as u64, MunitionDescriptorWarhead::HEDoubleHollowCharge as u64, MunitionDescriptorWarhead::HEGeneralPurpose as u64, MunitionDescriptorWarhead::HEBlastPenetrator as u64, MunitionDescriptorWarhead::HERodPenetrator as u64, MunitionDescriptorWarhead::HEAntiPersonnel as u64, MunitionDescriptorWarhead::HEShapedChargeFragmentationIncendiary as u64, MunitionDescriptorWarhead::HEPenetratorBlastFragmentation as u64, MunitionDescriptorWarhead::Smoke as u64, MunitionDescriptorWarhead::WP as u64, MunitionDescriptorWarhead::FOGO as u64, MunitionDescriptorWarhead::HC as u64, MunitionDescriptorWarhead::Illumination as u64, MunitionDescriptorWarhead::Practice as u64, MunitionDescriptorWarhead::Blank as u64, MunitionDescriptorWarhead::Dummy as u64, MunitionDescriptorWarhead::Kinetic as u64, MunitionDescriptorWarhead::Mines as u64, MunitionDescriptorWarhead::Nuclear as u64, MunitionDescriptorWarhead::NuclearIMT as u64, MunitionDescriptorWarhead::NuclearVariousYields as u64, MunitionDescriptorWarhead::ChemicalGeneral as u64, MunitionDescriptorWarhead::ChemicalBlisterAgent as u64, MunitionDescriptorWarhead::HD as u64, MunitionDescriptorWarhead::ThickenedHD as u64, MunitionDescriptorWarhead::DustyHD as u64, MunitionDescriptorWarhead::L as u64, MunitionDescriptorWarhead::HN3 as u64, MunitionDescriptorWarhead::HL as u64, MunitionDescriptorWarhead::CX as u64, MunitionDescriptorWarhead::DMMP as u64, MunitionDescriptorWarhead::DMHP as u64, MunitionDescriptorWarhead::DMA as u64, MunitionDescriptorWarhead::DEM as u64, MunitionDescriptorWarhead::PX as u64, MunitionDescriptorWarhead::ChemicalBloodAgent as u64, MunitionDescriptorWarhead::AC as u64, MunitionDescriptorWarhead::CK as u64, MunitionDescriptorWarhead::CG as u64, MunitionDescriptorWarhead::ChemicalNerveAgent as u64, MunitionDescriptorWarhead::VX as u64, MunitionDescriptorWarhead::ThickenedVX as u64, MunitionDescriptorWarhead::DustyVX as u64, MunitionDescriptorWarhead::GA as u64, MunitionDescriptorWarhead::ThickenedGA as u64, MunitionDescriptorWarhead::DustyGA as u64, MunitionDescriptorWarhead::GB as u64, MunitionDescriptorWarhead::ThickenedGB as u64, MunitionDescriptorWarhead::DustyGB as u64, MunitionDescriptorWarhead::GD as u64, MunitionDescriptorWarhead::ThickenedGD as u64, MunitionDescriptorWarhead::DustyGD as u64, MunitionDescriptorWarhead::GF as u64, MunitionDescriptorWarhead::ThickenedGF as u64, MunitionDescriptorWarhead::DustyGF as u64, MunitionDescriptorWarhead::SVX as u64, MunitionDescriptorWarhead::BIS as u64, MunitionDescriptorWarhead::TCP as u64, MunitionDescriptorWarhead::MS as u64, MunitionDescriptorWarhead::TEP as u64, MunitionDescriptorWarhead::H2O as u64, MunitionDescriptorWarhead::TO1 as u64, MunitionDescriptorWarhead::TO2 as u64, MunitionDescriptorWarhead::TO3 as u64, MunitionDescriptorWarhead::SulfurHexafluoride as u64, MunitionDescriptorWarhead::AA as u64, MunitionDescriptorWarhead::HF as u64, MunitionDescriptorWarhead::Biological as u64, MunitionDescriptorWarhead::BiologicalVirus as u64, MunitionDescriptorWarhead::BiologicalBacteria as u64, MunitionDescriptorWarhead::BiologicalRickettsia as u64, MunitionDescriptorWarhead::BiologicalGeneticallyModifiedMicroorganisms as u64, MunitionDescriptorWarhead::BiologicalToxin as u64], decode: |mut b| { let v = MunitionDescriptorWarhead::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MunitionDescriptorWarhead as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MunitionDescriptorWarhead::Other, MunitionDescriptorWarhead::Cargo, MunitionDescriptorWarhead::FuelAirExplosive, MunitionDescriptorWarhead::GlassBeads, MunitionDescriptorWarhead::_1um, MunitionDescriptorWarhead::_5um, MunitionDescriptorWarhead::_10um, MunitionDescriptorWarhead::HighExplosive, MunitionDescriptorWarhead::HEPlastic, MunitionDescriptorWarhead::HEIncendiary, MunitionDescriptorWarhead::HEFragmentation, MunitionDescriptorWarhead::HEAntiTank, MunitionDescriptorWarhead::HEBomblets, MunitionDescriptorWarhead::HEShapedCharge, MunitionDescriptorWarhead::HEContinuousRod, MunitionDescriptorWarhead::HETungstenBall, MunitionDescriptorWarhead::HEBlastFragmentation, MunitionDescriptorWarhead::HESteerableDartswithHE, MunitionDescriptorWarhead::HEDarts, MunitionDescriptorWarhead::HEFlechettes, MunitionDescriptorWarhead::HEDirectedFragmentation, MunitionDescriptorWarhead::HESemiArmorPiercing, MunitionDescriptorWarhead::HEShapedChargeFragmentation, MunitionDescriptorWarhead::HESemiArmorPiercingFragmentation, MunitionDescriptorWarhead::HEHollowCharge, MunitionDescriptorWarhead::HEDoubleHollowCharge, MunitionDescriptorWarhead::HEGeneralPurpose, MunitionDescriptorWarhead::HEBlastPenetrator, MunitionDescriptorWarhead::HERodPenetrator, MunitionDescriptorWarhead::HEAntiPersonnel, MunitionDescriptorWarhead::HEShapedChargeFragmentationIncendiary, MunitionDescriptorWarhead::HEPenetratorBlastFragmentation, MunitionDescriptorWarhead::Smoke, MunitionDescriptorWarhead::WP, MunitionDescriptorWarhead::FOGO, MunitionDescriptorWarhead::HC, MunitionDescriptorWarhead::Illumination, MunitionDescriptorWarhead::Practice, MunitionDescriptorWarhead::Blank, MunitionDescriptorWarhead::Dummy, MunitionDescriptorWarhead::Kinetic, MunitionDescriptorWarhead::Mines, MunitionDescriptorWarhead::Nuclear, MunitionDescriptorWarhead::NuclearIMT, MunitionDescriptorWarhead::NuclearVariousYields, MunitionDescriptorWarhead::ChemicalGeneral, MunitionDescriptorWarhead::ChemicalBlisterAgent, MunitionDescriptorWarhead::HD, MunitionDescriptorWarhead::ThickenedHD, MunitionDescriptorWarhead::DustyHD, MunitionDescriptorWarhead::L, MunitionDescriptorWarhead::HN3, MunitionDescriptorWarhead::HL, MunitionDescriptorWarhead::CX, MunitionDescriptorWarhead::DMMP, MunitionDescriptorWarhead::DMHP, MunitionDescriptorWarhead::DMA, MunitionDescriptorWarhead::DEM, MunitionDescriptorWarhead::PX, MunitionDescriptorWarhead::ChemicalBloodAgent, MunitionDescriptorWarhead::AC, MunitionDescriptorWarhead::CK, MunitionDescriptorWarhead::CG, MunitionDescriptorWarhead::ChemicalNerveAgent, MunitionDescriptorWarhead::VX, MunitionDescriptorWarhead::ThickenedVX, MunitionDescriptorWarhead::DustyVX, MunitionDescriptorWarhead::GA, MunitionDescriptorWarhead::ThickenedGA, MunitionDescriptorWarhead::DustyGA, MunitionDescriptorWarhead::GB, MunitionDescriptorWarhead::ThickenedGB, MunitionDescriptorWarhead::DustyGB, MunitionDescriptorWarhead::GD, MunitionDescriptorWarhead::ThickenedGD, MunitionDescriptorWarhead::DustyGD, MunitionDescriptorWarhead::GF, MunitionDescriptorWarhead::ThickenedGF, MunitionDescriptorWarhead::DustyGF, MunitionDescriptorWarhead::SVX, MunitionDescriptorWarhead::BIS, MunitionDescriptorWarhead::TCP, MunitionDescriptorWarhead::MS, MunitionDescriptorWarhead::TEP, MunitionDescriptorWarhead::H2O, MunitionDescriptorWarhead::TO1, MunitionDescriptorWarhead::TO2, MunitionDescriptorWarhead::TO3, MunitionDescriptorWarhead::SulfurHexafluoride, MunitionDescriptorWarhead::AA, MunitionDescriptorWarhead::HF, MunitionDescriptorWarhead::Biological, MunitionDescriptorWarhead::BiologicalVirus, MunitionDescriptorWarhead::BiologicalBacteria, MunitionDescriptorWarhead::BiologicalRickettsia, MunitionDescriptorWarhead::BiologicalGeneticallyModifiedMicroorganisms, MunitionDescriptorWarhead::BiologicalToxin], |v| v as u64), scan: None },
  EnumRow { name: "MunitionDescriptorFuse", bits: 16, default: 0, codes: &[("Other", 0), ("IntelligentInfluence", 10), ("Sensor", 20), ("Selfdestruct", 30), ("UltraQuick", 40), ("Body", 50), ("DeepIntrusion", 60), ("Multifunction", 100), ("PointDetonation", 200), ("BaseDetonation", 300), ("Contact", 1000), ("ContactInstant", 1100), ("ContactDelayed", 1200), ("_10msDelay", 1201), ("_20msDelay", 1202), ("_50msDelay", 1205), ("_60msDelay", 1206), ("_100msDelay", 1210), ("_125msDelay", 1212), ("_250msDelay", 1225), ("_5msDelay", 1250), ("_15msDelay", 1251), ("_25msDelay", 1252), ("_30msDelay", 1253), ("_35msDelay", 1254), ("_40msDelay", 1255), ("_45msDelay", 1256), ("_90msDelay", 1257), ("_120msDelay", 1258), ("_180msDelay", 1259), ("_240msDelay", 1260), ("ContactElectronic", 1300), ("ContactGraze", 1400), ("ContactCrush", 1500), ("ContactHydrostatic", 1600), ("ContactMechanical", 1700), ("ContactChemical", 1800), ("ContactPiezoelectric", 1900), ("ContactPointInitiating", 1910), ("ContactPointInitiatingBaseDetonating", 1920), ("ContactBaseDetonating", 1930), ("ContactBallisticCapandBase", 1940), ("ContactBase", 1950), ("ContactNose", 1960), ("ContactFittedinStandoffProbe", 1970), ("ContactNonaligned", 1980), ("Timed", 2000), ("TimedProgrammable", 2100), ("TimedBurnout", 2200), ("TimedPyrotechnic", 2300), ("TimedElectronic", 2400), ("TimedBaseDelay", 2500), ("TimedReinforcedNoseImpactDelay", 2600), ("TimedShortDelayImpact", 2700), ("_10msDelay2", 2701), ("_20msDelay2", 2702), ("_50msDelay2", 2705), ("_60msDelay2", 2706), ("_100msDelay2", 2710), ("_125msDelay2", 2712), ("_250msDelay2", 2725), ("TimedNoseMountedVariableDelay", 2800), ("TimedLongDelaySide", 2900), ("TimedSelectableDelay", 2910), ("TimedImpact", 2920), ("TimedSequence", 2930), ("Proximity", 3000), ("ProximityActiveLaser", 3100), ("ProximityMagnetic", 3200), ("ProximityActiveRadar", 3300), ("ProximityRadioFrequency", 3400), ("ProximityProgrammable", 3500), ("ProximityProgrammablePrefragmented", 3600), ("ProximityInfrared", 3700), ("Command", 4000), ("CommandElectronicRemotelySet", 4100), ("Altitude1", 5000), ("AltitudeRadioAltimeter", 5100), ("AltitudeAirBurst", 5200), ("Depth", 6000), ("Acoustic", 7000), ("Pressure", 8000), ("PressureDelay", 8010), ("Inert", 8100), ("Dummy", 8110), ("Practice", 8120), ("PlugRepresenting", 8130), ("Training", 8150), ("Pyrotechnic", 9000), ("PyrotechnicDelay", 9010), ("Electrooptical", 9100), ("Electromechanical", 9110), ("ElectromechanicalNose", 9120), ("Strikerless", 9200), ("StrikerlessNoseImpact", 9210), ("StrikerlessCompressionIgnition", 9220), ("CompressionIgnition", 9300), ("CompressionIgnitionStrikerlessNoseImpact", 9310), ("Percussion", 9400), ("PercussionInstantaneous", 9410), ("Electronic", 9500), ("ElectronicInternallyMounted", 9510), ("ElectronicRangeSetting", 9520), ("ElectronicProgrammed", 9530), ("Mechanical", 9600), ("MechanicalNose", 9610), ("MechanicalTail", 9620)], actual: || vec![MunitionDescriptorFuse::Other as u64, MunitionDescriptorFuse::IntelligentInfluence as u64, MunitionDescriptorFuse::Sensor as u64, MunitionDescriptorFuse::Selfdestruct as u64, MunitionDescriptorFuse::UltraQuick as u64, MunitionDescriptorFuse::Body as u64, MunitionDescriptorFuse::DeepIntrusion as u64, MunitionDescriptorFuse::Multifunction as u64, MunitionDescriptorFuse::PointDetonation as u64, MunitionDescriptorFuse::BaseDetonation as u64, MunitionDescriptorFuse::Contact as u64, MunitionDescriptorFuse::ContactInstant as u64, MunitionDescriptorFuse::ContactDelayed as u64, MunitionDescriptorFuse::_10msDelay as u64, MunitionDescriptorFuse::_20msDelay as u64, MunitionDescriptorFuse::_50msDelay as u64, MunitionDescriptorFuse::_60msDelay as u64, MunitionDescriptorFuse::_100msDelay as u64, MunitionDescriptorFuse::_125msDelay as u64, MunitionDescriptorFuse::_250msDelay as u64, MunitionDescriptorFuse::_5msDelay as u64, MunitionDescriptorFuse::_15msDelay as u64, MunitionDescriptorFuse::_25msDelay as u64, MunitionDescriptorFuse::_30msDelay as u64, MunitionDescriptorFuse::_35msDelay as u64, MunitionDescriptorFuse::_40msDelay as u64, MunitionDescriptorFuse::_45msDelay as u64, MunitionDescriptorFuse::_90msDelay as u64, MunitionDescriptorFuse::_120msDelay as u64, MunitionDescriptorFuse::_180msDelay as u64, MunitionDescriptorFuse::_240msDelay as u64, MunitionDescriptorFuse::ContactElectronic as u64, MunitionDescriptorFuse::ContactGraze as u64, MunitionDescriptorFuse::ContactCrush as u64, MunitionDescriptorFuse::ContactHydrostatic as u64, MunitionDescriptorFuse::ContactMechanical as u64, MunitionDescriptorFuse::ContactChemical as u64, MunitionDescriptorFuse::ContactPiezoelectric as u64, MunitionDescriptorFuse::ContactPointInitiating as u64, MunitionDescriptorFuse::ContactPointInitiatingBaseDetonating as u64, MunitionDescriptorFuse::ContactBaseDetonating as u64, MunitionDescriptorFuse::ContactBallisticCapandBase as u64, MunitionDescriptorFuse::ContactBase as u64, MunitionDescriptorFuse::ContactNose as u64, MunitionDescriptorFuse::ContactFittedinStandoffProbe as u64, MunitionDescriptorFuse::ContactNonaligned as u64, MunitionDescriptorFuse::Timed as u64, MunitionDescriptorFuse::TimedProgrammable as u64, MunitionDescriptorFuse::TimedBurnout as u64, MunitionDescriptorFuse::TimedPyrotechnic as u64, MunitionDescriptorFuse::TimedElectronic as u64, MunitionDescriptorFuse::TimedBaseDelay as u64, MunitionDescriptorFuse::TimedReinforcedNoseImpactDelay as u64, MunitionDescriptorFuse::TimedShortDelayImpact as u64, MunitionDescriptorFuse::_10msDelay2 as u64, MunitionDescriptorFuse::_20msDelay2 as u64, MunitionDescriptorFuse::_50msDelay2 as u64, MunitionDescriptorFuse::_60msDelay2 as u64, MunitionDescriptorFuse::_100msDelay2 as u64, MunitionDescriptorFuse::_125msDelay2 as u64, MunitionDescriptorFuse::_250msDelay2 as u64, MunitionDescriptorFuse::TimedNoseMountedVariableDelay as u64, MunitionDescriptorFuse::TimedLongDelaySide as u64, MunitionDescriptorFuse::TimedSelectableDelay as u64, MunitionDescriptorFuse::TimedImpact as u64, MunitionDescriptorFuse::TimedSequence as u64, MunitionDescriptorFuse::Proximity as u64, MunitionDescriptorFuse::ProximityActiveLaser as u64, MunitionDescriptorFuse::ProximityMagnetic as u64, MunitionDescriptorFuse::ProximityActiveRadar as u64, MunitionDescriptorFuse::ProximityRadioFrequency as u64, MunitionDescriptorFuse::ProximityProgrammable as u64, MunitionDescriptorFuse::ProximityProgrammablePrefragmented as u64, MunitionDescriptorFuse::ProximityInfrared as u64, MunitionDescriptorFuse::Command as u64, MunitionDescriptorFuse::CommandElectronicRemotelySet as u64, MunitionDescriptorFuse::Altitude1 as u64, MunitionDescriptorFuse::AltitudeRadioAltimeter as u64, MunitionDescriptorFuse::AltitudeAirBurst as u64, MunitionDescriptorFuse::Depth as u64, MunitionDescriptorFuse::Acoustic as u64, MunitionDescriptorFuse::Pressure as u64, MunitionDescriptorFuse::PressureDelay as u64, MunitionDescriptorFuse::Inert as u64, MunitionDescriptorFuse::Dummy as u64, MunitionDescriptorFuse::Practice as u64, MunitionDescriptorFuse::PlugRepresenting as u64, MunitionDescriptorFuse::Training as u64, MunitionDescriptorFuse::Pyrotechnic as u64, MunitionDescriptorFuse::PyrotechnicDelay as u64, MunitionDescriptorFuse::Electrooptical as u64, MunitionDescriptorFuse::Electromechanical as u64, MunitionDescriptorFuse::ElectromechanicalNose as u64, MunitionDescriptorFuse::Strikerless as u64, MunitionDescriptorFuse::StrikerlessNoseImpact as u64, MunitionDescriptorFuse::StrikerlessCompressionIgnition as u64, MunitionDescriptorFuse::CompressionIgnition as u64, MunitionDescriptorFuse::CompressionIgnitionStrikerlessNoseImpact as u64, MunitionDescriptorFuse::Percussion as u64, MunitionDescriptorFuse::PercussionInstantaneous as u64, MunitionDescriptorFuse::Electronic as u64, MunitionDescriptorFuse::ElectronicInternallyMounted as u64, MunitionDescriptorFuse::ElectronicRangeSetting as u64, MunitionDescriptorFuse::ElectronicProgrammed as u64, MunitionDescriptorFuse::Mechanical as u64, MunitionDescriptorFuse::MechanicalNose as u64, MunitionDescriptorFuse::MechanicalTail as u64], decode: |mut b| { let v = MunitionDescriptorFuse::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MunitionDescriptorFuse as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MunitionDescriptorFuse::Other, MunitionDescriptorFuse::IntelligentInfluence, MunitionDescriptorFuse::Sensor, MunitionDescriptorFuse::Selfdestruct, MunitionDescriptorFuse::UltraQuick, MunitionDescriptorFuse::Body, MunitionDescriptorFuse::DeepIntrusion, MunitionDescriptorFuse::Multifunction, MunitionDescriptorFuse::PointDetonation, MunitionDescriptorFuse::BaseDetonation, MunitionDescriptorFuse::Contact, MunitionDescriptorFuse::ContactInstant, MunitionDescriptorFuse::ContactDelayed, MunitionDescriptorFuse::_10msDelay, MunitionDescriptorFuse::_20msDelay, MunitionDescriptorFuse::_50msDelay, MunitionDescriptorFuse::_60msDelay, MunitionDescriptorFuse::_100msDelay, MunitionDescriptorFuse::_125msDelay, MunitionDescriptorFuse::_250msDelay, MunitionDescriptorFuse::_5msDelay, MunitionDescriptorFuse::_15msDelay, MunitionDescriptorFuse::_25msDelay, MunitionDescriptorFuse::_30msDelay, MunitionDescriptorFuse::_35msDelay, MunitionDescriptorFuse::_40msDelay, MunitionDescriptorFuse::_45msDelay, MunitionDescriptorFuse::_90msDelay, MunitionDescriptorFuse::_120msDelay, MunitionDescriptorFuse::_180msDelay, MunitionDescriptorFuse::_240msDelay, MunitionDescriptorFuse::ContactElectronic, MunitionDescriptorFuse::ContactGraze, MunitionDescriptorFuse::ContactCrush, MunitionDescriptorFuse::ContactHydrostatic, MunitionDescriptorFuse::ContactMechanical, MunitionDescriptorFuse::ContactChemical, MunitionDescriptorFuse::ContactPiezoelectric, MunitionDescriptorFuse::ContactPointInitiating, MunitionDescriptorFuse::ContactPointInitiatingBaseDetonating, MunitionDescriptorFuse::ContactBaseDetonating, MunitionDescriptorFuse::ContactBallisticCapandBase, MunitionDescriptorFuse::ContactBase, MunitionDescriptorFuse::ContactNose, MunitionDescriptorFuse::ContactFittedinStandoffProbe, MunitionDescriptorFuse::ContactNonaligned, MunitionDescriptorFuse::Timed, MunitionDescriptorFuse::TimedProgrammable, MunitionDescriptorFuse::TimedBurnout, MunitionDescriptorFuse::TimedPyrotechnic, MunitionDescriptorFuse::TimedElectronic, MunitionDescriptorFuse::TimedBaseDelay, MunitionDescriptorFuse::TimedReinforcedNoseImpactDelay, MunitionDescriptorFuse::TimedShortDelayImpact, MunitionDescriptorFuse::_10msDelay2, MunitionDescriptorFuse::_20msDelay2, MunitionDescriptorFuse::_50msDelay2, MunitionDescriptorFuse::_60msDelay2, MunitionDescriptorFuse::_100msDelay2, MunitionDescriptorFuse::_125msDelay2, MunitionDescriptorFuse::_250msDelay2, MunitionDescriptorFuse::TimedNoseMountedVariableDelay, MunitionDescriptorFuse::TimedLongDelaySide, MunitionDescriptorFuse::TimedSelectableDelay, MunitionDescriptorFuse::TimedImpact, MunitionDescriptorFuse::TimedSequence, MunitionDescriptorFuse::Proximity, MunitionDescriptorFuse::ProximityActiveLaser, MunitionDescriptorFuse::ProximityMagnetic, MunitionDescriptorFuse::ProximityActiveRadar, MunitionDescriptorFuse::ProximityRadioFrequency, MunitionDescriptorFuse::ProximityProgrammable, MunitionDescriptorFuse::ProximityProgrammablePrefragmented, MunitionDescriptorFuse::ProximityInfrared, MunitionDescriptorFuse::Command, MunitionDescriptorFuse::CommandElectronicRemotelySet, MunitionDescriptorFuse::Altitude1, MunitionDescriptorFuse::AltitudeRadioAltimeter, MunitionDescriptorFuse::AltitudeAirBurst, MunitionDescriptorFuse::Depth, MunitionDescriptorFuse::Acoustic, MunitionDescriptorFuse::Pressure, MunitionDescriptorFuse::PressureDelay, MunitionDescriptorFuse::Inert, MunitionDescriptorFuse::Dummy, MunitionDescriptorFuse::Practice, MunitionDescriptorFuse::PlugRepresenting, MunitionDescriptorFuse::Training, MunitionDescriptorFuse::Pyrotechnic, MunitionDescriptorFuse::PyrotechnicDelay, MunitionDescriptorFuse::Electrooptical, MunitionDescriptorFuse::Electromechanical, MunitionDescriptorFuse::ElectromechanicalNose, MunitionDescriptorFuse::Strikerless, MunitionDescriptorFuse::StrikerlessNoseImpact, MunitionDescriptorFuse::StrikerlessCompressionIgnition, MunitionDescriptorFuse::CompressionIgnition, MunitionDescriptorFuse::CompressionIgnitionStrikerlessNoseImpact, MunitionDescriptorFuse::Percussion, MunitionDescriptorFuse::PercussionInstantaneous, MunitionDescriptorFuse::Electronic, MunitionDescriptorFuse::ElectronicInternallyMounted, MunitionDescriptorFuse::ElectronicRangeSetting, MunitionDescriptorFuse::ElectronicProgrammed, MunitionDescriptorFuse::Mechanical, MunitionDescriptorFuse::MechanicalNose, MunitionDescriptorFuse::MechanicalTail], |v| v as u64), scan: None },
  EnumRow { name: "DetonationResult", bits: 8, default: 0, codes: &[("Other", 0), ("EntityImpact", 1), ("EntityProximateDetonation", 2), ("GroundImpact", 3), ("GroundProximateDetonation", 4), ("Detonation", 5), ("NoneorNoDetonation", 6), ("HEhitsmall", 7), ("HEhitmedium", 8), ("HEhitlarge", 9), ("Armorpiercinghit", 10), ("Dirtblastsmall", 11), ("Dirtblastmedium", 12), ("Dirtblastlarge", 13), ("Waterblastsmall", 14), ("Waterblastmedium", 15), ("Waterblastlarge", 16), ("Airhit", 17), ("Buildinghitsmall", 18), ("Buildinghitmedium", 19), ("Buildinghitlarge", 20), ("Mineclearinglinecharge", 21), ("Environmentobjectimpact", 22), ("Environmentobjectproximatedetonation", 23), ("WaterImpact", 24), ("AirBurst", 25), ("Killwithfragmenttype1", 26), ("Killwithfragmenttype2", 27), ("Killwithfragmenttype3", 28), ("Killwithfragmenttype1afterflyoutfailure", 29), ("Killwithfragmenttype2afterflyoutfailure", 30), ("Missduetoflyoutfailure", 31), ("Missduetoendgamefailure", 32), ("Missduetoflyoutandendgamefailure", 33)], actual: || vec![DetonationResult::Other as u64, DetonationResult::EntityImpact as u64, DetonationResult::EntityProximateDetonation as u64, DetonationResult::GroundImpact as u64, DetonationResult::GroundProximateDetonation as u64, DetonationResult::Detonation as u64, DetonationResult::NoneorNoDetonation as u64, DetonationResult::HEhitsmall as u64, DetonationResult::HEhitmedium as u64, DetonationResult::HEhitlarge as u64, DetonationResult::Armorpiercinghit as u64, DetonationResult::Dirtblastsmall as u64, DetonationResult::Dirtblastmedium as u64, DetonationResult::Dirtblastlarge as u64, DetonationResult::Waterblastsmall as u64, DetonationResult::Waterblastmedium as u64, DetonationResult::Waterblastlarge as u64, DetonationResult::Airhit as u64, DetonationResult::Buildinghitsmall as u64, DetonationResult::Buildinghitmedium as u64, DetonationResult::Buildinghitlarge as u64, DetonationResult::Mineclearinglinecharge as u64, DetonationResult::Environmentobjectimpact as u64, DetonationResult::Environmentobjectproximatedetonation as u64, DetonationResult::WaterImpact as u64, DetonationResult::AirBurst as u64, DetonationResult::Killwithfragmenttype1 as u64, DetonationResult::Killwithfragmenttype2 as u64, DetonationResult::Killwithfragmenttype3 as u64, DetonationResult::Killwithfragmenttype1afterflyoutfailure as u64, DetonationResult::Killwithfragmenttype2afterflyoutfailure as u64, DetonationResult::Missduetoflyoutfailure as u64, DetonationResult::Missduetoendgamefailure as u64, DetonationResult::Missduetoflyoutandendgamefailure as u64], decode: |mut b| { let v = DetonationResult::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DetonationResult as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_DETONATIONRESULT[i], b), |mut b| <DetonationResult as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_DETONATIONRESULT[i]))), pairs: || crate::core::pairs(&[DetonationResult::Other, DetonationResult::EntityImpact, DetonationResult::EntityProximateDetonation, DetonationResult::GroundImpact, DetonationResult::GroundProximateDetonation, DetonationResult::Detonation, DetonationResult::NoneorNoDetonation, DetonationResult::HEhitsmall, DetonationResult::HEhitmedium, DetonationResult::HEhitlarge, DetonationResult::Armorpiercinghit, DetonationResult::Dirtblastsmall, DetonationResult::Dirtblastmedium, DetonationResult::Dirtblastlarge, DetonationResult::Waterblastsmall, DetonationResult::Waterblastmedium, DetonationResult::Waterblastlarge, DetonationResult::Airhit, DetonationResult::Buildinghitsmall, DetonationResult::Buildinghitmedium, DetonationResult::Buildinghitlarge, DetonationResult::Mineclearinglinecharge, DetonationResult::Environmentobjectimpact, DetonationResult::Environmentobjectproximatedetonation, DetonationResult::WaterImpact, DetonationResult::AirBurst, DetonationResult::Killwithfragmenttype1, DetonationResult::Killwithfragmenttype2, DetonationResult::Killwithfragmenttype3, DetonationResult::Killwithfragmenttype1afterflyoutfailure, DetonationResult::Killwithfragmenttype2afterflyoutfailure, DetonationResult::Missduetoflyoutfailure, DetonationResult::Missduetoendgamefailure, DetonationResult::Missduetoflyoutandendgamefailure], |v| v as u64), scan: None },
  EnumRow { name: "ServiceRequestServiceTypeRequested", bits: 8, default: 0, codes: &[("Other", 0), ("Resupply", 1), ("Repair", 2), ("AerialRefuelingHighFidelity", 3), ("AerialRefuelingLowFidelity", 4)], actual: || vec![ServiceRequestServiceTypeRequested::Other as u64, ServiceRequestServiceTypeRequested::Resupply as u64, ServiceRequestServiceTypeRequested::Repair as u64, ServiceRequestServiceTypeRequested::AerialRefuelingHighFidelity as u64, ServiceRequestServiceTypeRequested::AerialRefuelingLowFidelity as u64], decode: |mut b| { let v = ServiceRequestServiceTypeRequested::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ServiceRequestServiceTypeRequested as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_SERVICEREQUESTSERVICETYPEREQUESTED[i], b), |mut b| <ServiceRequestServiceTypeRequested as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_SERVICEREQUESTSERVICETYPEREQUESTED[i]))), pairs: || crate::core::pairs(&[ServiceRequestServiceTypeRequested::Other, ServiceRequestServiceTypeRequested::Resupply, ServiceRequestServiceTypeRequested::Repair, ServiceRequestServiceTypeRequested::AerialRefuelingHighFidelity, ServiceRequestServiceTypeRequested::AerialRefuelingLowFidelity], |v| v as u64), scan: None },
  EnumRow { name: "RepairCompleteRepair", bits: 16, default: 0, codes: &[("NoRepairsPerformed", 0), ("AllRequestedrepairSperformed", 1), ("MotorEngine", 10), ("Starter", 20), ("Alternator", 30), ("Generator", 40), ("Battery", 50), ("EngineCoolantLeak", 60), ("FuelFilter", 70), ("TransmissionOilLeak", 80), ("EngineOilLeak", 90), ("Pumps", 100), ("DriveTrainFilters", 110), ("Transmission", 120), ("Brakes", 130), ("SuspensionSystem", 140), ("OilFilter", 150), ("Hull", 1000), ("Airframe", 1010), ("TruckBody", 1020), ("TankBody", 1030), ("TrailerBody", 1040), ("Turret", 1050), ("Propeller", 1500), ("EnvironmentFilters", 1520), ("Wheels", 1540), ("Tire", 1550), ("Track", 1560), ("GunElevationDrive", 2000), ("GunStabilizationSystem", 2010), ("GunnersPrimarySight", 2020), ("CommandersExtensionToTheGPS", 2030), ("LoadingMechanism", 2040), ("GunnersAuxiliarySight", 2050), ("GunnersControlPanel", 2060), ("GunnersControlAssemblyHandle", 2070), ("CommandersControlHandlesAssembly", 2090), ("CommandersWeaponStation", 2100), ("CommandersIndependentThermalViewer", 2110), ("GeneralWeapons", 2120), ("FuelTransferPump", 4000), ("FuelLines", 4010), ("Gauges", 4020), ("GeneralFuelSystem", 4030), ("ElectronicWarfareSystems", 4500), ("DetectionSystems", 4600), ("DetectionSystemsRadioFrequency", 4610), ("DetectionSystemsMicrowave", 4620), ("DetectionSystemsInfrared", 4630), ("DetectionSystemsLaser", 4640), ("RangeFinders", 4700), ("RangeOnlyrAdar", 4710), ("LaserRangeFinder", 4720), ("ElectronicSystems", 4800), ("ElectronicsSystemsRadioFrequency", 4810), ("ElectronicsSystemsMicrowave", 4820), ("ElectronicsSystemsInfrared", 4830), ("ElectronicsSystemsLaser", 4840), ("Radios", 5000), ("CommunicationSystems", 5010), ("Intercoms", 5100), ("Encoders", 5200), ("EncryptionDevices", 5250), ("Decoders", 5300), ("DecryptionDevices", 5350), ("Computers", 5500), ("NavigationAndControlSystems", 6000), ("FireControlSystems", 6500), ("AirSupply", 8000), ("LifeSupportSystemsFilters", 8010), ("WaterSupply", 8020), ("RefrigerationSystem", 8030), ("ChemicalBiologicalAndRadiologicalProtection", 8040), ("WaterWashdownSystems", 8050), ("DecontaminationSystems", 8060), ("Watersupply", 9000), ("Coolingsystem", 9010), ("Winches", 9020), ("Catapults", 9030), ("Cranes", 9040), ("Launchers", 9050), ("Lifeboats", 10000), ("Landingcraft", 10010), ("Ejectionseats", 10020)], actual: || vec![RepairCompleteRepair::NoRepairsPerformed as u64, RepairCompleteRepair::AllRequestedrepairSperformed as u64, RepairCompleteRepair::MotorEngine as u64, RepairCompleteRepair::Starter as u64, RepairCompleteRepair::Alternator as u64, RepairCompleteRepair::Generator as u64, RepairCompleteRepair::Battery as u64, RepairCompleteRepair::EngineCoolantLeak as u64, RepairCompleteRepair::FuelFilter as u64, RepairCompleteRepair::TransmissionOilLeak as u64, RepairCompleteRepair::EngineOilLeak as u64, RepairCompleteRepair::Pumps as u64, RepairCompleteRepair::DriveTrainFilters as u64, RepairCompleteRepair::Transmission as u64, RepairCompleteRepair::Brakes as u64, RepairCompleteRepair::SuspensionSystem as u64, RepairCompleteRepair::OilFilter as u64, RepairCompleteRepair::Hull as u64, RepairCompleteRepair::Airframe as u64, RepairCompleteRepair::TruckBody as u64, RepairCompleteRepair::TankBody as u64, RepairCompleteRepair::TrailerBody as u64, RepairCompleteRepair::Turret as u64, RepairCompleteRepair::Propeller as u64, RepairCompleteRepair::EnvironmentFilters as u64, RepairCompleteRepair::Wheels as u64, RepairCompleteRepair::Tire as u64, RepairCompleteRepair::Track as u64, RepairCompleteRepair::GunElevationDrive as u64, RepairCompleteRepair::GunStabilizationSystem as u64, RepairCompleteRepair::GunnersPrimarySight as u64, RepairCompleteRepair::CommandersExtensionToTheGPS as u64, RepairCompleteRepair::LoadingMechanism as u64, RepairCompleteRepair::GunnersAuxiliarySight as u64, RepairCompleteRepair::GunnersControlPanel as u64, RepairCompleteRepair::GunnersControlAssemblyHandle as u64, RepairCompleteRepair::CommandersControlHandlesAssembly as u64, RepairCompleteRepair::CommandersWeaponStation as u64, RepairCompleteRepair::CommandersIndependentThermalViewer as u64, RepairCompleteRepair::GeneralWeapons as u64, RepairCompleteRepair::FuelTransferPump as u64, RepairCompleteRepair::FuelLines as u64, RepairCompleteRepair::Gauges as u64, RepairCompleteRepair::GeneralFuelSystem as u64, RepairCompleteRepair::ElectronicWarfareSystems as u64, RepairCompleteRepair::DetectionSystems as u64, RepairCompleteRepair::DetectionSystemsRadioFrequency as u64, RepairCompleteRepair::DetectionSystemsMicrowave as u64, RepairCompleteRepair::DetectionSystemsInfrared as u64, RepairCompleteRepair::DetectionSystemsLaser as u64, RepairCompleteRepair::RangeFinders as u64, RepairCompleteRepair::RangeOnlyrAdar as u64, RepairCompleteRepair::LaserRangeFinder as u64, RepairCompleteRepair::ElectronicSystems as u64, RepairCompleteRepair::ElectronicsSystemsRadioFrequency as u64, RepairCompleteRepair::ElectronicsSystemsMicrowave as u64, RepairCompleteRepair::ElectronicsSystemsInfrared as u64, RepairCompleteRepair::ElectronicsSystemsLaser as u64, RepairCompleteRepair::Radios as u64, RepairCompleteRepair::CommunicationSystems as u64, RepairCompleteRepair::Intercoms as u64, RepairCompleteRepair::Encoders as u64, RepairCompleteRepair::EncryptionDevices as u64, RepairCompleteRepair::Decoders as u64, RepairCompleteRepair::DecryptionDevices as u64, RepairCompleteRepair::Computers as u64, RepairCompleteRepair::NavigationAndControlSystems as u64, RepairCompleteRepair::FireControlSystems as u64, RepairCompleteRepair::AirSupply as u64, RepairCompleteRepair::LifeSupportSystemsFilters as u64, RepairCompleteRepair::WaterSupply as u64, RepairCompleteRepair::RefrigerationSystem as u64, RepairCompleteRepair::ChemicalBiologicalAndRadiologicalProtection as u64, RepairCompleteRepair::WaterWashdownSystems as u64, RepairCompleteRepair::DecontaminationSystems as u64, RepairCompleteRepair::Watersupply as u64, RepairCompleteRepair::Coolingsystem as u64, RepairCompleteRepair::Winches as u64, RepairCompleteRepair::Catapults as u64, RepairCompleteRepair::Cranes as u64, RepairCompleteRepair::Launchers as u64, RepairCompleteRepair::Lifeboats as u64, RepairCompleteRepair::Landingcraft as u64, RepairCompleteRepair::Ejectionseats as u64], decode: |mut b| { let v = RepairCompleteRepair::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <RepairCompleteRepair as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_REPAIRCOMPLETEREPAIR[i], b), |mut b| <RepairCompleteRepair as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_REPAIRCOMPLETEREPAIR[i]))), pairs: || crate::core::pairs(&[RepairCompleteRepair::NoRepairsPerformed, RepairCompleteRepair::AllRequestedrepairSperformed, RepairCompleteRepair::MotorEngine, RepairCompleteRepair::Starter, RepairCompleteRepair::Alternator, RepairCompleteRepair::Generator, RepairCompleteRepair::Battery, RepairCompleteRepair::EngineCoolantLeak, RepairCompleteRepair::FuelFilter, RepairCompleteRepair::TransmissionOilLeak, RepairCompleteRepair::EngineOilLeak, RepairCompleteRepair::Pumps, RepairCompleteRepair::DriveTrainFilters, RepairCompleteRepair::Transmission, RepairCompleteRepair::Brakes, RepairCompleteRepair::SuspensionSystem, RepairCompleteRepair::OilFilter, RepairCompleteRepair::Hull, RepairCompleteRepair::Airframe, RepairCompleteRepair::TruckBody, RepairCompleteRepair::TankBody, RepairCompleteRepair::TrailerBody, RepairCompleteRepair::Turret, RepairCompleteRepair::Propeller, RepairCompleteRepair::EnvironmentFilters, RepairCompleteRepair::Wheels, RepairCompleteRepair::Tire, RepairCompleteRepair::Track, RepairCompleteRepair::GunElevationDrive, RepairCompleteRepair::GunStabilizationSystem, RepairCompleteRepair::GunnersPrimarySight, RepairCompleteRepair::CommandersExtensionToTheGPS, RepairCompleteRepair::LoadingMechanism, RepairCompleteRepair::GunnersAuxiliarySight, RepairCompleteRepair::GunnersControlPanel, RepairCompleteRepair::GunnersControlAssemblyHandle, RepairCompleteRepair::CommandersControlHandlesAssembly, RepairCompleteRepair::CommandersWeaponStation, RepairCompleteRepair::CommandersIndependentThermalViewer, RepairCompleteRepair::GeneralWeapons, RepairCompleteRepair::FuelTransferPump, RepairCompleteRepair::FuelLines, RepairCompleteRepair::Gauges, RepairCompleteRepair::GeneralFuelSystem, RepairCompleteRepair::ElectronicWarfareSystems, RepairCompleteRepair::DetectionSystems, RepairCompleteRepair::DetectionSystemsRadioFrequency, RepairCompleteRepair::DetectionSystemsMicrowave, RepairCompleteRepair::DetectionSystemsInfrared, RepairCompleteRepair::DetectionSystemsLaser, RepairCompleteRepair::RangeFinders, RepairCompleteRepair::RangeOnlyrAdar, RepairCompleteRepair::LaserRangeFinder, RepairCompleteRepair::ElectronicSystems, RepairCompleteRepair::ElectronicsSystemsRadioFrequency, RepairCompleteRepair::ElectronicsSystemsMicrowave, RepairCompleteRepair::ElectronicsSystemsInfrared, RepairCompleteRepair::ElectronicsSystemsLaser, RepairCompleteRepair::Radios, RepairCompleteRepair::CommunicationSystems, RepairCompleteRepair::Intercoms, RepairCompleteRepair::Encoders, RepairCompleteRepair::EncryptionDevices, RepairCompleteRepair::Decoders, RepairCompleteRepair::DecryptionDevices, RepairCompleteRepair::Computers, RepairCompleteRepair::NavigationAndControlSystems, RepairCompleteRepair::FireControlSystems, RepairCompleteRepair::AirSupply, RepairCompleteRepair::LifeSupportSystemsFilters, RepairCompleteRepair::WaterSupply, RepairCompleteRepair::RefrigerationSystem, RepairCompleteRepair::ChemicalBiologicalAndRadiologicalProtection, RepairCompleteRepair::WaterWashdownSystems, RepairCompleteRepair::DecontaminationSystems, RepairCompleteRepair::Watersupply, RepairCompleteRepair::Coolingsystem, RepairCompleteRepair::Winches, RepairCompleteRepair::Catapults, RepairCompleteRepair::Cranes, RepairCompleteRepair::Launchers, RepairCompleteRepair::Lifeboats, RepairCompleteRepair::Landingcraft, RepairCompleteRepair::Ejectionseats], |v| v as u64), scan: None },
  EnumRow { name: "RepairResponseRepairResult", bits: 8, default: 0, codes: &[("Other", 0), ("RepairEnded", 1), ("InvalidRepair", 2), ("RepairInterrupted", 3), ("ServiceCanceledByTheSupplier", 4)], actual: || vec![RepairResponseRepairResult::Other as u64, RepairResponseRepairResult::RepairEnded as u64, RepairResponseRepairResult::InvalidRepair as u64, RepairResponseRepairResult::RepairInterrupted as u64, RepairResponseRepairResult::ServiceCanceledByTheSupplier as u64], decode: |mut b| { let v = RepairResponseRepairResult::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <RepairResponseRepairResult as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_REPAIRRESPONSEREPAIRRESULT[i], b), |mut b| <RepairResponseRepairResult as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_REPAIRRESPONSEREPAIRRESULT[i]))), pairs: || crate::core::pairs(&[RepairResponseRepairResult::Other, RepairResponseRepairResult::RepairEnded, RepairResponseRepairResult::InvalidRepair, RepairResponseRepairResult::RepairInterrupted, RepairResponseRepairResult::ServiceCanceledByTheSupplier], |v| v as u64), scan: None },
  EnumRow { name: "VariableRecordTypes", bits: 32, default: 1, codes: &[("EntityIDList", 1), ("DDCPJoinTransactionJoinRequestMessage", 1001), ("DDCPSetPlaybackWindowTransactionSetPlaybackWindowRequestMessage", 1002), ("DDCPLoadMissionRecordingTransactionLoadMissionRecordingRequestMessage", 1003), ("DDCPCueTransactionCueRequestMessage", 1004), ("DDCPPlayTransactionPlayRequestMessage", 1005), ("DDCPStopTransactionStopRequestMessage", 1006), ("DDCPPauseTransactionPauseRequestMessage", 1007), ("DDCPEndTransactionEndRequestMessage", 1009), ("DDCPJoinResponseMessage", 1051), ("DDCPRequestReceiptMessage", 1052), ("DDCPPlaybackWindowConfirmedMessage", 1053), ("DDCPMissionRecordingLoadedMessage", 1054), ("DDCPCueConfirmedMessage", 1055), ("DDCPTimetoCompleteMessage", 1056), ("DDCPPlayCommencedMessage", 1057), ("DDCPStopConfirmedMessage", 1058), ("DDCPPauseConfirmedMessage", 1059), ("DDCPEndResponseMessage", 1061), ("DDCPMasterAnnounceMessage", 1111), ("DDCPDeviceAnnounceMessage", 1112), ("DDCPDeviceExitMessage", 1114), ("DDCPDeviceHeartbeatMessage", 1115), ("DDCPMasterTimeSyncMessage", 1116), ("DDCPErrorMessage", 1118), ("DDCPMasterStopSyncMessage", 1119), ("DDCPMasterTransitionMessage", 1120), ("MissionTime", 1200), ("HighFidelityHAVEQUICKSATURNRadio", 3000), ("BlankingSectorattributerecord", 3500), ("AngleDeceptionattributerecord", 3501), ("FalseTargetsattributerecord", 3502), ("DEPrecisionAimpointrecord", 4000), ("DEAreaAimpointrecord", 4001), ("DirectedEnergyDamageDescriptionrecord", 4500), ("CryptoControl", 5000), ("Mode5STransponderLocation", 5001), ("Mode5STransponderLocationError", 5002), ("SquitterAirbornePositionReport", 5003), ("SquitterAirborneVelocityReport", 5004), ("SquitterSurfacePositionReport", 5005), ("SquitterIdentificationReport", 5006), ("GICB", 5007), ("SquitterEventDrivenReport", 5008), ("AntennaLocation", 5009), ("BasicInteractive", 5010), ("InteractiveMode4Reply", 5011), ("InteractiveMode5Reply", 5012), ("InteractiveBasicMode5", 5013), ("InteractiveBasicModeS", 5014), ("IOEffect", 5500), ("IOCommunicationsNode", 5501), ("Identification1", 10000), ("TrainerInitialConditionsFilename", 10010), ("Increment3_1MissionDataLoadName", 10020), ("Increment2MissionDataLoadName", 10030), ("SetMarkpointCommand", 10110), ("MarkpointID", 10115), ("ReactionLevel", 10140), ("WeaponReload", 10150), ("CESEntitySetClearStatus", 10157), ("ActivateEntity", 10160), ("DisengageReengage1", 10170), ("FuelFreeze", 10190), ("FireLaunchDispense", 10250), ("TargetAssignment", 10254), ("CICEnable", 10256), ("ShootInhibit", 10258), ("Posture", 10259), ("JammerState", 10262), ("JammerType", 10263), ("DynamicTargeting", 10264), ("ManualJammingOnOverride", 10267), ("SOJAxis", 10268), ("EmitterOverride1", 10280), ("Shields1", 10290), ("CrashOverride", 10300), ("StopBuzzer", 10306), ("TargetLasingOnOff", 10307), ("TargetLasingLaserCode", 10308), ("PowerPlant", 10310), ("TacticalLightingOnOffControlLightControl", 10311), ("TacticalLightingBlinkerControlBlinkerValue", 10312), ("TacticalLightingOnOffControlLightControlType", 10313), ("ParkVehicle", 10314), ("SignalingOnOff", 10315), ("SignalingDevice", 10316), ("OwnshipID", 10400), ("StateChange", 10600), ("EntityType1", 11000), ("Concatenated", 11100), ("Kind", 11110), ("Domain", 11120), ("Country", 11130), ("Category", 11140), ("Subcategory", 11150), ("Specific", 11160), ("Extra", 11170), ("ForceID1", 11180), ("ForceID2", 11200), ("Description", 11300), ("TankerBoomControl", 11500), ("AirportLights", 11501), ("WeatherPost", 11502), ("LocalizerandGlideSlope", 11503), ("TACANNavAids", 11504), ("AlternativeEntityType1", 12000), ("Kind2", 12110), ("Domain2", 12120), ("Country2", 12130), ("Category2", 12140), ("Subcategory2", 12150), ("Specific2", 12160), ("Extra2", 12170), ("Description2", 12300), ("EntityMarking", 13000), ("EntityMarkingCharacters", 13100), ("CrewID", 13200), ("TaskOrganization", 14000), ("RegimentName", 14200), ("BattalionName", 14300), ("CompanyName", 14400), ("PlatoonName", 14500), ("SquadName", 14520), ("TeamName", 14540), ("BumperNumber", 14600), ("VehicleNumber", 14700), ("UnitNumber", 14800), ("DISIdentity", 15000), ("DISSiteID", 15100), ("DISHostID", 15200), ("DISEntityID", 15300), ("MountIntent", 15400), ("TetherUnthetherCommandID", 15500), ("TeleportEntityDataRecord", 15510), ("DISAggregateID", 15600), ("OwnershipStatus", 15800), ("Reconstitute", 19177), ("Loads", 20000), ("CrewMembers", 21000), ("CrewMemberID", 21100), ("Health", 21200), ("JobAssignment", 21300), ("Fuel", 23000), ("Quantity1", 23100), ("Quantity2", 23105), ("Ammunition", 24000), ("_120mmHEATquantity", 24001), ("_120mmSABOTquantity", 24002), ("_12_7mmM8quantity", 24003), ("_12_7mmM20quantity", 24004), ("_7_62mmM62quantity", 24005), ("M250UKL8A1quantity", 24006), ("M250UKL8A3quantity", 24007), ("_7_62mmM80quantity", 24008), ("_12_7mmquantity", 24009), ("_7_62mmquantity", 24010), ("Minesquantity", 24060), ("Type", 24100), ("Kind3", 24110), ("Domain3", 24120), ("Country3", 24130), ("Category3", 24140), ("Subcategory3", 24150), ("Extra3", 24160), ("Description3", 24300), ("Cargo", 25000), ("VehicleMass", 26000), ("SupplyQuantity", 27000), ("Armament", 28000), ("Status", 30000), ("Activateentity", 30010), ("SubscriptionState", 30100), ("Roundtriptimedelay", 30300), ("TADILJmessagecountLabel0", 30400), ("TADILJmessagecountLabel1", 30401), ("TADILJmessagecountLabel2", 30402), ("TADILJmessagecountLabel3", 30403), ("TADILJmessagecountLabel4", 30404), ("TADILJmessagecountLabel5", 30405), ("TADILJmessagecountLabel6", 30406), ("TADILJmessagecountLabel7", 30407), ("TADILJmessagecountLabel8", 30408), ("TADILJmessagecountLabel9", 30409), ("TADILJmessagecountLabel10", 30410), ("TADILJmessagecountLabel11", 30411), ("TADILJmessagecountLabel12", 30412), ("TADILJmessagecountLabel13", 30413), ("TADILJmessagecountLabel14", 30414), ("TADILJmessagecountLabel15", 30415), ("TADILJmessagecountLabel16", 30416), ("TADILJmessagecountLabel17", 30417), ("TADILJmessagecountLabel18", 30418), ("TADILJmessagecountLabel19", 30419), ("TADILJmessagecountLabel20", 30420), ("TADILJmessagecountLabel21", 30421), ("TADILJmessagecountLabel22", 30422), ("TADILJmessagecountLabel23", 30423), ("TADILJmessagecountLabel24", 30424), ("TADILJmessagecountLabel25", 30425), ("TADILJmessagecountLabel26", 30426), ("TADILJmessagecountLabel27", 30427), ("TADILJmessagecountLabel28", 30428), ("TADILJmessagecountLabel29", 30429), ("TADILJmessagecountLabel30", 30430), ("TADILJmessagecountLabel31", 30431), ("Position", 31000), ("Routetype", 31010), ("MilGrid10", 31100), ("GeocentricCoordinates", 31200), ("X", 31210), ("Y", 31220), ("Z", 31230), ("Latitude1", 31300), ("Longitude1", 31400), ("LineofSight", 31500), ("X1", 31510), ("Y1", 31520), ("Z1", 31530), ("Altitude2", 31600), ("DestinationLatitude", 31700), ("DestinationLongitude", 31800), ("DestinationAltitude", 31900), ("Orientation", 32000), ("HullHeadingAngle", 32100), ("HullPitchAngle", 32200), ("RollAngle", 32300), ("X2", 32500), ("Y2", 32600), ("Z2", 32700), ("Appearance", 33000), ("AmbientLighting", 33100), ("Lights1", 33101), ("PaintScheme", 33200), ("Smoke", 33300), ("TrailingEffects", 33400), ("Flaming", 33500), ("Marking", 33600), ("MinePlowsAttached", 33710), ("MineRollersAttached", 33720), ("TankTurretAzimuth", 33730), ("FailuresandMalfunctions", 34000), ("Age", 34100), ("Kilometers", 34110), ("Damage", 35000), ("Cause", 35050), ("MobilityKill1", 35100), ("FirePowerKill", 35200), ("PersonnelCasualties", 35300), ("Velocity", 36000), ("Xvelocity", 36100), ("Yvelocity", 36200), ("Zvelocity", 36300), ("Speed1", 36400), ("Acceleration", 37000), ("Xacceleration", 37100), ("Yacceleration", 37200), ("Zacceleration", 37300), ("EngineStatus", 38100), ("PrimaryTargetLine", 39000), ("Exercise", 40000), ("ExerciseState", 40010), ("RestartRefresh", 40015), ("AFATDSFileName", 40020), ("TerrainDatabase", 41000), ("Missions", 42000), ("MissionID", 42100), ("MissionType", 42200), ("MissionRequestTimeStamp", 42300), ("ExerciseDescription", 43000), ("Name", 43100), ("Entities", 43200), ("Version", 43300), ("GuiseMode", 43410), ("SimulationApplicationActiveStatus", 43420), ("SimulationApplicationRoleRecord", 43430), ("SimulationApplicationState", 43440), ("VisualOutputMode", 44000), ("SimulationManagerRole", 44100), ("SimulationManagerSiteID", 44110), ("SimulationManagerApplicID", 44120), ("SimulationManagerEntityID", 44130), ("SimulationManagerActiveStatus", 44140), ("AfterActiveReviewRole", 44200), ("AfterActiveReviewSiteID", 44210), ("AfterActiveApplicID", 44220), ("AfterActiveReviewEntityID", 44230), ("AfterActiveReviewActiveStatus", 44240), ("ExerciseLoggerRole", 44300), ("ExerciseLoggerSiteID", 44310), ("ExerciseLoggerApplicID", 44320), ("ExerciseEntityID", 44330), ("ExerciseLoggerActiveStatus", 44340), ("SyntheticEnvironmentManagerRole", 44400), ("SyntheticEnvironmentManagerSiteID", 44410), ("SyntheticEnvironmentManagerApplicID", 44420), ("SyntheticEnvironmentManagerEntityID", 44430), ("SyntheticEnvironmentManagerActiveStatus", 44440), ("SIMNETDISTranslatorRole", 44500), ("SIMNETDISTranslatorSiteID", 44510), ("SIMNETDISTranslatorApplicID", 44520), ("SIMNETDISTranslatorEntityID", 44530), ("SIMNETDISTranslatorActiveStatus", 44540), ("ApplicationRate", 45000), ("ApplicationTime", 45005), ("ApplicationTimestep", 45010), ("FeedbackTime", 45020), ("SimulationRate", 45030), ("SimulationTime", 45040), ("SimulationTimestep", 45050), ("TimeInterval", 45060), ("TimeLatency", 45070), ("TimeScheme", 45080), ("ExerciseElapsedTime", 46000), ("ElapsedTime", 46010), ("Environment", 50000), ("ScenarioDate", 50103), ("TimeDateValid", 50106), ("ScenarioTime", 50118), ("SnowEnableDisable", 50120), ("WeatherAttributesRequest", 50124), ("METHeartbeatMessage", 50126), ("ContrailsEnable", 50600), ("ContrailAltitudes", 50700), ("Weather1", 51000), ("WeatherCondition", 51010), ("ThermalCondition", 51100), ("ThermalVisibility1", 51110), ("ThermalVisibility2", 51111), ("Time1", 52000), ("Time2", 52001), ("TimeofDayDiscrete", 52100), ("TimeofDayContinuous", 52200), ("TimeMode", 52300), ("TimeScene", 52305), ("CurrentHour", 52310), ("CurrentMinute", 52320), ("CurrentSecond", 52330), ("Azimuth1", 52340), ("MaximumElevation", 52350), ("TimeZone", 52360), ("TimeRate", 52370), ("TheNumberOfSimulationSecondsSinceTheStartOfTheExercise", 52380), ("TimeSunriseEnabled", 52400), ("SunriseHour", 52410), ("SunriseMinute", 52420), ("SunriseSecond", 52430), ("SunriseAzimuth", 52440), ("TimeSunsetEnabled", 52500), ("SunsetHour1", 52510), ("SunsetHour2", 52511), ("SunsetMinute", 52520), ("SunsetSecond", 52530), ("Date1", 52600), ("DateEuropean", 52601), ("DateUS", 52602), ("Month", 52610), ("Day", 52620), ("Year", 52630), ("Clouds", 53000), ("CloudLayerEnable", 53050), ("CloudLayerSelection", 53060), ("Visibility", 53100), ("BaseAltitude1", 53200), ("BaseAltitude2", 53250), ("Ceiling1", 53300), ("Ceiling2", 53350), ("Characteristics", 53400), ("ConcentrationLength", 53410), ("Transmittance", 53420), ("Radiance", 53430), ("Precipitation", 54000), ("Rain", 54100), ("Fog", 55000), ("Visibility1", 55100), ("Visibility2", 55101), ("Visibility3", 55105), ("Density1", 55200), ("Base", 55300), ("ViewLayerfromabove_", 55401), ("TransitionRange", 55410), ("Bottom1", 55420), ("Bottom2", 55425), ("Ceiling3", 55430), ("Ceiling4", 55435), ("HeavenlyBodies", 56000), ("Sun", 56100), ("SunVisible", 56105), ("Position1", 56110), ("SunPositionElevationDegrees", 56111), ("PositionAzimuth1", 56120), ("SunPositionAzimuthDegrees", 56121), ("PositionElevation1", 56130), ("PositionIntensity1", 56140), ("Moon", 56200), ("MoonVisible", 56205), ("Position2", 56210), ("PositionAzimuth2", 56220), ("MoonPositionAzimuthDegrees", 56221), ("PositionElevation2", 56230), ("MoonPositionElevationDegrees", 56231), ("PositionIntensity2", 56240), ("Horizon", 56310), ("HorizonAzimuth", 56320), ("HorizonElevation", 56330), ("HorizonHeading", 56340), ("HorizonIntensity", 56350), ("Humidity", 57200), ("Visibility4", 57300), ("Winds", 57400), ("Speed2", 57410), ("WindSpeedKnots", 57411), ("WindDirection1", 57420), ("WindDirectionDegrees", 57421), ("Rainsoak", 57500), ("TideSpeed", 57610), ("TideSpeedKnots", 57611), ("TideDirection", 57620), ("TideDirectionDegrees", 57621), ("Haze", 58000), ("Visibility5", 58100), ("Visibility6", 58105), ("Density2", 58200), ("Ceiling5", 58430), ("Ceiling6", 58435), ("ContaminantsandObscurants", 59000), ("ContaminantObscurantType", 59100), ("Persistence", 59110), ("ChemicalDosage", 59115), ("ChemicalAirConcentration", 59120), ("ChemicalGroundDeposition", 59125), ("ChemicalMaximumGroundDeposition", 59130), ("ChemicalDosageThreshold", 59135), ("BiologicalDosage", 59140), ("BiologicalAirConcentration", 59145), ("BiologicalDosageThreshold", 59150), ("BiologicalBinnedParticleCount", 59155), ("RadiologicalDosage", 59160), ("Communications", 60000), ("FireBottleReload", 61005), ("ChannelType1", 61100), ("ChannelType2", 61101), ("ChannelIdentification", 61200), ("AlphaIdentification", 61300), ("RadioIdentification", 61400), ("LandLineIdentification", 61500), ("IntercomIdentification", 61600), ("GroupNetworkChannelNumber", 61700), ("RadioCommunicationsStatus", 62100), ("BoomInterphone", 62101), ("StationaryRadioTransmittersDefaultTime", 62200), ("MovingRadioTransmittersDefaultTime", 62300), ("StationaryRadioSignalsDefaultTime", 62400), ("MovingRadioSignalDefaultTime", 62500), ("RadioInitializationTransecSecurityKey", 63101), ("RadioInitializationInternalNoiseLevel", 63102), ("RadioInitializationSquelchThreshold", 63103), ("RadioInitializationAntennaLocation", 63104), ("RadioInitializationAntennaPatternType", 63105), ("RadioInitializationAntennaPatternLength", 63106), ("RadioInitializationBeamDefinition", 63107), ("RadioInitializationTransmitHeartbeatTime", 63108), ("RadioInitializationTransmitDistanceThresholdVariableRecord", 63109), ("RadioChannelInitializationLockoutID", 63110), ("RadioChannelInitializationHopsetID", 63111), ("RadioChannelInitializationPresetFrequency", 63112), ("RadioChannelInitializationFrequencySyncTime", 63113), ("RadioChannelInitializationComsecKey", 63114), ("RadioChannelInitializationAlpha", 63115), ("AlgorithmParameters", 70000), ("DeadReckoningAlgorithm1", 71000), ("DRALocationThreshold", 71100), ("DRAOrientationThreshold", 71200), ("DRATimeThreshold", 71300), ("SimulationManagementParameters", 72000), ("CheckpointInterval", 72100), ("TransmitterTimeThreshold", 72600), ("ReceiverTimeThreshold", 72700), ("InteroperabilityMode", 73000), ("SIMNETDataCollection", 74000), ("EventID", 75000), ("SourceSiteID", 75100), ("SourceHostID", 75200), ("ArticulatedParts", 90000), ("PartID", 90050), ("Index", 90070), ("Position3", 90100), ("PositionRate", 90200), ("Extension", 90300), ("ExtensionRate", 90400), ("X3", 90500), ("Xrate", 90600), ("Y3", 90700), ("Yrate", 90800), ("Z3", 90900), ("Zrate", 91000), ("Azimuth2", 91100), ("AzimuthRate", 91200), ("Elevation", 91300), ("ElevationRate", 91400), ("Rotation2", 91500), ("RotationRate", 91600), ("DRAAngularXVelocity", 100001), ("DRAAngularYVelocity", 100002), ("DRAAngularZVelocity", 100003), ("AppearanceTrailingEffects", 100004), ("AppearanceHatch", 100005), ("AppearanceCharacterSet", 100008), ("CapabilityAmmunitionSupplier", 100010), ("CapabilityMiscellaneousSupplier", 100011), ("CapabilityRepairProvider", 100012), ("ArticulationParameter", 100014), ("ArticulationParameterType1", 100047), ("ArticulationParameterValue1", 100048), ("TimeofDayScene", 100058), ("LatitudeNorth", 100061), ("LongitudeEast", 100063), ("TacticalDriverStatus", 100068), ("SonarSystemStatus", 100100), ("Accomplishedaccept", 100160), ("Upperlatitude", 100161), ("LatitudeSouth", 100162), ("Westernlongitude", 100163), ("LongitudeWest", 100164), ("CDROMNumber", 100165), ("DTEDdiskID", 100166), ("Altitude3", 100167), ("TacticalSystemStatus", 100169), ("JTIDSStatus", 100170), ("TADILJStatus", 100171), ("DSDDStatus", 100172), ("WeaponSystemStatus", 100200), ("Subsystemstatus", 100205), ("Numberofinterceptorsfired", 100206), ("Numberofinterceptordetonations", 100207), ("Numberofmessagebuffersdropped", 100208), ("Satellitesensorbackground1", 100213), ("Satellitesensorbackground2", 100214), ("ScriptNumber", 100218), ("EntityTrackUpdateData", 100300), ("LocalForceTraining", 100400), ("EntityTrackIdentityData", 100500), ("EntityforTrackEvent", 100510), ("IFFstatus", 100520), ("EngagementData", 100600), ("TargetLatitude", 100610), ("TargetLongitude", 100620), ("AreaofInterestCenterLatitude", 100631), ("AreaofInterestCenterLongitude", 100632), ("AreaofInterestRadius", 100633), ("AreaofInterestType", 100634), ("TargetAggregateID", 100640), ("GICIdentificationNumber", 100650), ("EstimatedTimeofFlighttoTBMImpact", 100660), ("EstimatedInterceptTime", 100661), ("EstimatedTimeofFlighttoNextWaypoint", 100662), ("EntityTrackEquipmentData", 100700), ("EmissionEWData", 100800), ("AppearanceData", 100900), ("CommandOrderData", 101000), ("EnvironmentalData", 101100), ("SignificantEventData", 101200), ("OperatorActionData", 101300), ("ADAEngagementMode", 101310), ("ADAShootingStatus", 101320), ("ADAMode", 101321), ("ADARadarStatus", 101330), ("ShootCommand", 101340), ("ADAWeaponStatus", 101350), ("ADAFiringDisciple", 101360), ("OrderStatus", 101370), ("TimeSynchronization", 101400), ("TomahawkData", 101500), ("NumberofDetonations", 102100), ("NumberofIntercepts", 102200), ("OBTControlMT201", 200201), ("SensorDataMT202", 200202), ("EnvironmentalDataMT203", 200203), ("OwnshipDataMT204", 200204), ("AcousticContactDataMT205", 200205), ("SonobuoyDataMT207", 200207), ("SonobuoyContactDataMT210", 200210), ("HeloControlMT211", 200211), ("ESMControlData", 200213), ("ESMContactDataMT214", 200214), ("ESMEmitterDataMT215", 200215), ("WeaponDefinitionDataMT217", 200216), ("WeaponPresetDataMT217", 200217), ("OBTControlMT301", 200301), ("SensorDataMT302", 200302), ("EnvironmentalDataMT303m", 200303), ("OwnshipDataMT304", 200304), ("AcousticContactDataMT305", 200305), ("SonobuoyDataMT307", 200307), ("SonobuoyContactDataMT310", 200310), ("HeloScenarioEquipmentStatus", 200311), ("ESMControlDataMT313", 200313), ("ESMContactDataMT314", 200314), ("ESMEmitterDataMT315", 200315), ("WeaponDefinitionDataMT316", 200316), ("WeaponPresetDataMT317", 200317), ("PairingAssociation", 200400), ("Pointer", 200401), ("ReportingResponsibility", 200402), ("TrackNumber", 200403), ("IDforLink11Reporting", 200404), ("RemoteTrack", 200405), ("Link11ErrorRate", 200406), ("TrackQuality", 200407), ("Gridlock", 200408), ("Kill", 200409), ("TrackIDChangeResolution", 200410), ("WeaponsStatus", 200411), ("Link11Operator", 200412), ("ForceTrainingTransmit", 200413), ("ForceTrainingReceive", 200414), ("InterceptorAmplification1", 200415), ("Consumables1", 200416), ("Link11LocalTrackQuality", 200417), ("DLRP", 200418), ("ForceOrder", 200419), ("WilcoCantco", 200420), ("EMCBearing", 200421), ("ChangeTrackEligibility", 200422), ("LandMassReferencePoint", 200423), ("SystemReferencePoint", 200424), ("PUAmplification", 200425), ("SetDrift", 200426), ("BeginInitialization", 200427), ("StatusandControl", 200428), ("ScintillationChange", 200429), ("Link11IDControl", 200430), ("PUGuardList", 200431), ("WindsAloft", 200432), ("SurfaceWinds", 200433), ("SeaState", 200434), ("MagneticVariation", 200435), ("TrackEligibility", 200436), ("TrainingTrackNotification", 200437), ("TacanData", 200501), ("InterceptorAmplification2", 200502), ("TacanAssignment", 200503), ("AutopilotStatus", 200504), ("Consumables2", 200505), ("Downlink", 200506), ("TINReport", 200507), ("SpecialPointControl", 200508), ("ControlDiscretes", 200509), ("RequestTargetDiscretes", 200510), ("TargetDiscretes", 200511), ("ReplyDiscretes", 200512), ("CommandManeuvers", 200513), ("TargetData", 200514), ("TargetPointer", 200515), ("InterceptData", 200516), ("DecrementMissileInventory", 200517), ("Link4AAlert", 200518), ("StrikeControl", 200519), ("SpeedChange", 200521), ("CourseChange", 200522), ("AltitudeChange", 200523), ("ACLSANSPN46Status", 200524), ("ACLSAircraftReport", 200525), ("SPS67RadarOperatorFunctions", 200600), ("SPS55RadarOperatorFunctions", 200601), ("SPQ9ARadarOperatorFunctions", 200602), ("SPS49RadarOperatorFunctions", 200603), ("MK23RadarOperatorFunctions", 200604), ("SPS48RadarOperatorFunctions", 200605), ("SPS40RadarOperatorFunctions", 200606), ("MK95RadarOperatorFunctions", 200607), ("KillNoKill", 200608), ("CMTpc", 200609), ("CMC4AirGlobalData", 200610), ("CMC4GlobalData", 200611), ("LINKSIMCOMMENTPDU", 200612), ("NSSTOwnshipControl", 200613), ("Other", 240000), ("MassOfTheVehicle", 240001), ("ForceID3", 240002), ("EntityTypeKind", 240003), ("EntityTypeDomain", 240004), ("EntityTypeCountry", 240005), ("EntityTypeCategory", 240006), ("EntityTypeSubCategory", 240007), ("EntityTypeSpecific", 240008), ("EntityTypeExtra", 240009), ("AlternativeEntityTypeKind", 240010), ("AlternativeEntityTypeDomain", 240011), ("AlternativeEntityTypeCountry", 240012), ("AlternativeEntityTypeCategory", 240013), ("AlternativeEntityTypeSubCategory", 240014), ("AlternativeEntityTypeSpecific", 240015), ("AlternativeEntityTypeExtra", 240016), ("EntityLocationX", 240017), ("EntityLocationY", 240018), ("EntityLocationZ", 240019), ("EntityLinearVelocityX", 240020), ("EntityLinearVelocityY", 240021), ("EntityLinearVelocityZ", 240022), ("EntityOrientationPsi", 240023), ("EntityOrientationTheta", 240024), ("EntityOrientationPhi", 240025), ("DeadReckoningAlgorithm2", 240026), ("DeadReckoningLinearAccelerationX", 240027), ("DeadReckoningLinearAccelerationY", 240028), ("DeadReckoningLinearAccelerationZ", 240029), ("DeadReckoningAngularVelocityX", 240030), ("DeadReckoningAngularVelocityY", 240031), ("DeadReckoningAngularVelocityZ", 240032), ("EntityAppearance", 240033), ("EntityMarkingCharacterSet", 240034), ("EntityMarking11Bytes", 240035), ("Capability", 240036), ("NumberArticulationParameters", 240037), ("ArticulationParameterID", 240038), ("ArticulationParameterType2", 240039), ("ArticulationParameterValue2", 240040), ("TypeOfStores", 240041), ("QuantityOfStores", 240042), ("FuelQuantity", 240043), ("RadarSystemStatus", 240044), ("RadioCommunicationSystemStatus", 240045), ("DefaultTimeForRadioTransmissionForStationaryTransmitters", 240046), ("DefaultTimeForRadioTransmissionForMovingTransmitters", 240047), ("BodyPartDamagedRatio", 240048), ("NameOfTheTerrainDatabaseFile", 240049), ("NameOfLocalFile", 240050), ("AimpointBearing", 240051), ("AimpointElevation", 240052), ("AimpointRange", 240053), ("AirSpeed", 240054), ("Altitude", 240055), ("ApplicationStatus", 240056), ("AutoIff", 240057), ("BeaconDelay", 240058), ("BingoFuelSetting", 240059), ("CloudBottom", 240060), ("CloudTop", 240061), ("Direction", 240062), ("EndAction", 240063), ("Frequency", 240064), ("Freeze", 240065), ("Heading", 240066), ("Identification2", 240067), ("InitialPointData", 240068), ("Latitude2", 240069), ("Lights2", 240070), ("Linear", 240071), ("Longitude2", 240072), ("LowAltitude", 240073), ("MfdFormats", 240074), ("Nctr", 240075), ("NumberProjectiles", 240076), ("OperationCode", 240077), ("Pitch", 240078), ("Profiles", 240079), ("Quantity3", 240080), ("RadarModes", 240081), ("RadarSearchVolume", 240082), ("Roll", 240083), ("Rotation", 240084), ("ScaleFactorX", 240085), ("ScaleFactorY", 240086), ("Shields2", 240087), ("Steerpoint", 240088), ("Spare1", 240089), ("Spare2", 240090), ("Team", 240091), ("Text", 240092), ("TimeOfDay", 240093), ("TrailFlag", 240094), ("TrailSize", 240095), ("TypeOfProjectile", 240096), ("TypeOfTarget", 240097), ("TypeOfThreat", 240098), ("UhfFrequency", 240099), ("UtmAltitude", 240100), ("UtmLatitude", 240101), ("UtmLongitude", 240102), ("VhfFrequency", 240103), ("VisibilityRange", 240104), ("VoidAaaHit", 240105), ("VoidCollision", 240106), ("VoidEarthHit", 240107), ("VoidFriendly", 240108), ("VoidGunHit", 240109), ("VoidRocketHit", 240110), ("VoidSamHit", 240111), ("WeaponData", 240112), ("WeaponType", 240113), ("Weather2", 240114), ("WindDirection2", 240115), ("WindSpeed", 240116), ("WingStation", 240117), ("Yaw", 240118), ("MemoryOffset", 240119), ("MemoryData", 240120), ("VASI", 240121), ("Beacon", 240122), ("Strobe", 240123), ("Culture", 240124), ("Approach", 240125), ("RunwayEnd", 240126), ("Obstruction", 240127), ("RunwayEdge", 240128), ("RampTaxiway", 240129), ("LaserBombCode", 240130), ("RackType", 240131), ("HUD", 240132), ("RoleFileName", 240133), ("PilotName", 240134), ("PilotDesignation", 240135), ("ModelType", 240136), ("DISType", 240137), ("Class", 240138), ("Channel", 240139), ("EntityType2", 240140), ("AlternativeEntityType2", 240141), ("EntityLocation", 240142), ("EntityLinearVelocity", 240143), ("EntityOrientation", 240144), ("DeadReckoning", 240145), ("FailureSymptom", 240146), ("MaxFuel", 240147), ("RefuelingBoomConnect", 240148), ("AltitudeAGL", 240149), ("CalibratedAirspeed", 240150), ("TACANChannel1", 240151), ("TACANBand1", 240152), ("TACANMode1", 240153), ("FuelFlowRate", 270115), ("FuelTemperature", 270116), ("FuelPressure", 270117), ("SKESlot", 270150), ("SKELead", 270151), ("SKEFrequency", 270152), ("FCICmd", 270153), ("FCINum", 270154), ("SKEBitField", 270155), ("FormationPosition", 270156), ("FormationNumber", 270157), ("FFSModeActive", 270158), ("FFSRole", 270159), ("FFSVCAS", 270160), ("FFSBitField", 270161), ("FFSCallSign", 270162), ("FFSGuidanceData", 270163), ("FFSTextData", 270164), ("FFSAirdropRequestData", 270165), ("FFSAirdropData", 270166), ("HorizontalCircularErrorProbable", 300000), ("HorizontalPositionError", 300001), ("VerticalPositionError", 300002), ("HorizontalVelocityError", 300003), ("VerticalVelocityError", 300004), ("_4thLowestJammertoSignalRatioforP1", 300005), ("_4thLowestJammertoSignalRatioforP2", 300006), ("GPSFigureofMerit", 300007), ("WeaponTransferGPSState", 300008), ("WeaponTransferHorizontalPositionError", 300009), ("WeaponTransferVerticalPositionError1", 300010), ("WeaponTransferVerticalPositionError2", 300011), ("WeaponTransferHorizontalVelocityError", 300012), ("TimeTransferError", 300013), ("AgeofEphemeris", 300014), ("NonFlyoutMunitionEntityRequestDISTypeEnumeration", 300016), ("NonFlyoutMunitionEntityRequestLaunchPointX", 300017), ("NonFlyoutMunitionEntityRequestLaunchPointY", 300018), ("NonFlyoutMunitionEntityRequestLaunchPointZ", 300019), ("NonFlyoutMunitionEntityRequestMaximumAltitude", 300020), ("NonFlyoutMunitionEntityRequestFlightPath", 300021), ("NonFlyoutMunitionEntityRequestImpactPointX", 300022), ("NonFlyoutMunitionEntityRequestImpactPointY", 300023), ("NonFlyoutMunitionEntityRequestImpactPointZ", 300024), ("NonFlyoutMunitionEntityRequestElapsedFlightTime", 300025), ("NonFlyoutMunitionEntityRequestLaunchTime", 300026), ("TimeError", 300027), ("Link16CommandVariety1", 301100), ("Push", 301130), ("Rolex", 301140), ("TerminateIntercept", 301150), ("HealDamage", 301151), ("Destroy", 301152), ("TransferControlManagement", 301160), ("Link16ControlsPPLIEnable", 301170), ("Link16ControlsCommandControlEnable", 301171), ("Link16ReferencePointMessageInitiation", 301174), ("AssignExternalEntityLink16TrackNumber", 301175), ("Link16IntelligenceInfo", 301176), ("Link16TrackManagement", 301177), ("Link16ControlsCESGlobalPPLIPublish", 301178), ("Link16ControlsCESGlobalSurveillancePublish", 301179), ("RequestGlobalLink16Configuration", 301180), ("Link16ControlsSurveillanceEnable", 301181), ("Link16Pointer", 301182), ("Link16Vector", 301183), ("Link16ControlUnitChange", 301184), ("Link16Text", 301185), ("RequestLink16Objects", 301186), ("Link16RefObjectNameList", 301187), ("TotalNumberofPDUsinLink16RefObjectsResponse", 301189), ("PDUNumberinLink16RefObjectsResponse", 301190), ("TotalNumberofLink16RefObjects", 301191), ("Link16ControlsF2FAEnable", 301197), ("Link16ControlsF2FBEnable", 301198), ("STNofFormationLeader", 301199), ("FormationName", 301200), ("FormationRole", 301201), ("SurveillanceContributorSensorBasedDetection", 301202), ("F2FANPG", 301220), ("Link16ControlsF2FANet", 301221), ("F2FBNPG", 301222), ("Link16ControlsF2FBNet", 301223), ("SurveillanceEnabledNPB", 301224), ("SurveillanceEnabledNet", 301225), ("ControlUnitEnabled", 301226), ("ControlUnitEnabledNPG", 301227), ("ControlUnitEnabledNet", 301228), ("VoiceFrequency", 301229), ("Link16JTIDSVoiceCallsign", 301234), ("EntityIDofControlUnit", 301237), ("STNofControlUnit", 301238), ("NTRParticipationLevel", 301239), ("Link16ControlsCESGlobalPPLISubscribe", 301240), ("Link16ControlsCESGlobalSurveillanceSubscribe", 301241), ("NTRinMission", 301242), ("NTRMarking", 301243), ("NTRReceiptCompliance", 301244), ("FormationF2FNPG", 301255), ("FormationF2FChannel", 301256), ("JLVCLogReport", 400008), ("JLVCSupplyAdjust", 400009), ("JLVCEntityControl", 400010), ("JLVCHealthUpdate", 400011), ("JLVCRepairComplete", 400012), ("JLVCUnitActivation", 400013), ("JLVCBattleDamageRepair", 400014), ("JLVCMinefield", 400015), ("JLVCWire", 400016), ("JLVCAbatis", 400017), ("JLVCCrater", 400018), ("JLVCDitch", 400019), ("JLVCLanes", 400020), ("JLVCIED", 400021), ("JLVCRubble", 400022), ("JLVCSubmergedBarrier", 400023), ("JLVCFloatingBarrier", 400024), ("JLVCFoxhole", 400025), ("JLVCVehicleHole", 400026), ("JLVCVehicleFortification", 400027), ("JLVCSandbag", 400028), ("JLVCCheckpoint", 400029), ("JLVCContamCloud2D", 400030), ("JLVCPopulationEffect", 400031), ("JLVCMine", 400032), ("JLVCSeaMinefield", 400033), ("Munition", 500001), ("EngineFuel", 500002), ("StorageFuel", 500003), ("NotUsed", 500004), ("Expendable", 500005), ("TotalRecordSets", 500006), ("LaunchedMunition", 500007), ("Association", 500008), ("Sensor", 500009), ("MunitionReload", 500010), ("EngineFuelReload", 500011), ("StorageFuelReload", 500012), ("ExpendableReload", 500013), ("IFFChangeControlMode1Code", 500014), ("IFFChangeControlMode2Code", 500015), ("IFFChangeControlMode3Code", 500016), ("IFFChangeControlMode4Code", 500017), ("IFFChangeControlMode5Code", 500018), ("IFFChangeControlMode6Code", 500019), ("Link16Data", 500021), ("ARMAlert", 500022), ("IFFChangeControlModeOnOff", 500023), ("WeaponStatusData", 500024), ("ExpendableStatusData", 500025), ("TacticStatusData", 500026), ("EmitterSensorData", 500027), ("IOSControlData", 500028), ("StaticStatusData", 500029), ("RequestInactiveEntities", 500200), ("InactiveEntityQuantity", 500201), ("InactiveEntityID", 500202), ("InactiveEntityType", 500203), ("ActivationTriggerType", 500204), ("ActivationTriggerValue", 500205), ("AirtoAirMissileQty", 551001), ("AIM7MissileQty", 551002), ("AIM9MissileQty", 551003), ("AIM120MissileQty", 551004), ("AirtoGroundMissileQty", 551005), ("SurfacetoAirMissileQty", 551006), ("BulletQty1", 551007), ("ChaffQty", 552001), ("FlareQty", 552002), ("FuelLevel", 553001), ("RouteType", 553002), ("ThreatMode", 553003), ("TargetOccluded", 553004), ("TerrainHeight", 553005), ("EntityStatus", 553006), ("MarshalStatus", 553007), ("PowerPlantStatus", 553008), ("NavLightStatus", 553009), ("InteriorLightStatus", 553010), ("LandingLightStatus", 553011), ("FormationLightStatus", 553012), ("AntiCollisionLightStatus", 553013), ("NavFormationFlashRate", 553014), ("AntiColOnDuration", 553015), ("AntiColOffDuration", 553016), ("InterceptStatus", 553017), ("LifeFormSignalingDeviceType", 553018), ("LifeFormMovementType", 553019), ("LifeFormInVehicle", 553020), ("MobilityKill2", 553021), ("FirepowerKill", 553022), ("TankerEnabledDisabled", 553028), ("ThreatStatusTacticOKtoShootDownWeapons", 553029), ("TACANChannel2", 554001), ("TACANBand2", 554002), ("TACANMode2", 554003), ("RWRStatus", 554004), ("UHFRadioFrequency", 554005), ("EmitJammingStatus", 554006), ("EmitJammingType", 554007), ("ReceiveJammingStatus", 554008), ("RADARMode", 554009), ("AvailableRADARModes", 554010), ("JammerPodEnumeration", 554100), ("JammerPodBehavior", 554101), ("JammerPodPrograms", 554102), ("JammerPodReceiverSensitivity", 554103), ("JammerPodReceiverFrequencyMinimum", 554104), ("JammerPodReceiverFrequencyMaximum", 554105), ("JammerPodPower", 554106), ("JammerPodVariability", 554107), ("JammerPodNumberofFalseTargets", 554108), ("JammerPodJammerKnob", 554109), ("JammerPodMissileJamming", 554110), ("EmitterOverride2", 555001), ("JammerOverride", 555002), ("DisengageReengage2", 555003), ("HeadingOverride", 555004), ("AltitudeOverride", 555005), ("SpeedOverride", 555006), ("VerboseOverride", 555007), ("OcclusionOverride", 555008), ("CommitRange", 556001), ("CurrentScenarioIFFMode4ACodeforThisThreatsAffiliation", 556007), ("CurrentScenarioIFFMode4BCodeforThisThreatsAffiliation", 556008), ("OktoEngageWaypointNumber", 556016), ("MaxSpeedatSeaLevel", 556017), ("MaxSpeed", 556018), ("CurrentWaypointNumber", 556019), ("RouteInformation", 556020), ("ThreatStatusStaticMultiTargetTrack", 556029), ("AirAirIRMissileQty", 557001), ("AirAirRadarMissileQty", 557002), ("AirGroundIRMissileQty", 557003), ("AirGroundRadarMissileQty", 557004), ("AirGroundAntiRadiationMissileQty", 557005), ("AirGroundBombQty", 557006), ("AirGroundRocketQty", 557007), ("SurfaceAirIRMissileQty", 557008), ("SurfaceAirRadarMissileQty", 557009), ("BulletQty2", 557010), ("PPLIPublishEnabled", 559001), ("SurveillancePublishEnabled", 559002), ("NPG", 559003), ("NPGChannel", 559004), ("JTIDSTrackNumber", 559005), ("Link16ControlsSurveillanceReportable", 559006), ("Link16ControlsSurveillanceTrackQuality", 559007), ("Link16ControlsTargetPositionQuality", 559008), ("Link16ControlsQualityErrorType", 559009), ("Link16ControlsAffiliationDeterminationRule", 559010), ("Link16ControlsResetEntityAffiliation", 559011), ("Link16ControlsResetAllAffiliation", 559012), ("EndofMessages", 559999), ("MalfunctionActivateDeactivateSet", 600001), ("MalfunctionStatus", 600002), ("RequestJTIDSTrackNumbers", 600210), ("TrackNumbersvsEID", 600212), ("TotalNumberofJTIDSTrackNumbers", 600214), ("PDUNumberinJTIDSTrackNumberResponse", 600215), ("TotalNumberofPDUsinJTIDSTrackNumberResponse", 600216), ("AirtoAirRefuelerEntitiesRequest", 600218), ("AirtoAirRefuelingCount", 600219), ("AirToAirRefuelerEntity", 600220), ("FormationLibraryRequest", 600300), ("TotalNumberFormationLibraryPDUs1", 600301), ("PDUNumberinFormationLibraryResponse1", 600302), ("TotalNumberFormationLibraryItemsinPDU", 600303), ("FormationLibraryVariable", 600304), ("CreateRuntimeFormation", 600305), ("FormationRequestHeader", 600306), ("FormationPositionAbsolute", 600307), ("FormationPositionRelative", 600308), ("ExpendablesReload", 610006), ("PositionFreeze", 610007), ("ActivateOwnship", 610008), ("Chocks", 610009), ("WarmupCooldownOverride", 610010), ("GroundPower", 610011), ("ScrambleStart", 610012), ("OwnshipasaThreat", 610013), ("FuelExternal", 610015), ("FuelInternal", 610016), ("FuelTankTemp", 610017), ("GrossWeight", 610025), ("AngleOfAttack", 610026), ("GLoad", 610027), ("WeightOnWheels", 610029), ("StoredEnergySystemReload", 610032), ("KillOverride", 610035), ("ExpendablesFreeze", 610036), ("GPSSatellitesEnableDisable", 610037), ("OwnshipMessageDisplay", 610040), ("WeaponQuantityFreeze", 610042), ("GlobalControlFreezeWeaponsQuantityOnAllOwnships", 610043), ("GlobalControlFreezeFuelQuantityOnAllOwnships", 610044), ("GlobalControlFreezeKillOverrideOnAllOwnships", 610045), ("GlobalControlFreezeCrashOverrideOnAllOwnships", 610046), ("OwnshipOFPBlockNumber", 610047), ("WaypointInformationQuery", 610048), ("WaypointInformation", 610049), ("OwnshipSubsystemStatusData", 610050), ("CockpitSwitchStatus", 613002), ("IntegratedControlPanelMessages", 613003), ("ThrottlePositions", 613004), ("CurrentCriticalSwitchPosition", 613005), ("CorrectCriticalSwitchPosition", 613006), ("CurrentCriticalSwitchData", 613007), ("CorrectCriticalSwitchData", 613008), ("MissionInitialConditionsSet", 613013), ("GlobalControlMalfunctionActiveonAllOwnships", 613016), ("GlobalControlMalfunctionClearOnAllOwnships", 613017), ("ValidatedCriticalSwitchReport", 613020), ("SARMapPathname", 613021), ("ValidatedCriticalSwitchOwnshipID", 613022), ("LowerBoomEventReport", 613027), ("RaiseBoomEventReport", 613028), ("BreakawayEventReport", 613029), ("CompleteEventReport", 613030), ("AuxCommPanelFrequencyDisplay", 613031), ("NetworkStationInformation", 615000), ("GlobalControlSelectNetworkStation", 615001), ("NetworkStationUnderGlobalControl", 615002), ("GlobalControlStillControlling", 615003), ("GlobalControlReleaseControlofNetworkStation", 615004), ("GlobalControlFreezeWeaponQuantity", 615005), ("GlobalControlFreezeFuelQuantity", 615006), ("GlobalControlFreezeKillOverride", 615007), ("GlobalControlFreezeCrashOverride", 615008), ("GlobalControlMalfunctionActive", 615009), ("GlobalControlMalfunctionClear", 615010), ("GlobalControlStartDevices", 615011), ("GlobalControlFreezeDevices", 615012), ("GlobalControlJTIDSCommand", 615013), ("NetworkStationICSetInformation", 615015), ("GlobalControlResetICSet", 615017), ("NumberofControllingUnits", 615018), ("NetworkStationJTIDSControllingUnits", 615019), ("NetworkStationJTIDSObjectiveTracks", 615020), ("NumberofReferenceObjects", 615021), ("NetworkStationJTIDSReferenceObjects", 615022), ("NetworkedStationStillUnderControl", 615023), ("GlobalControlDeleteThreatEntities", 615024), ("NetworkStationOwnshipCallsigns", 615025), ("GlobalControlRequestFormationLibraryData", 615026), ("TotalNumberFormationLibraryPDUs2", 615027), ("PDUNumberinFormationLibraryResponse2", 615028), ("TotalNumberFormationLibraryItemsinPDUs", 615029), ("NetworkStationFormationLibraryItem", 615030), ("GlobalControlAddRelativeFormation", 615031), ("NetworkStationTICFilename", 615032), ("GlobalControlFreezeWarmupOverride", 615033), ("GlobalControlReloadSES", 615034), ("GlobalControlReloadWeapons", 615035), ("GlobalControlReloadExpendables", 615036), ("GlobalControlReloadFuel", 615037), ("GlobalControlReloadFirebottle", 615038), ("TestPattern", 700000), ("AudioTest", 700001), ("AudioTone", 700002), ("CalibrateThrottles", 700003), ("OperationalLimitsEventReport", 700004), ("OperationalLimits", 700005), ("EventMarkerMessage", 1000620), ("ReceiverAircraftAeroModelData", 2000000), ("TankerAircraftAeroModelData", 2000010), ("BoomAircraftAeroModelData", 2000020), ("AccesstoImageGeneratorData1", 2000030), ("AccesstoImageGeneratorData2", 2000031), ("AccesstoImageGeneratorData3", 2000032), ("AccesstoImageGeneratorData4", 2000033), ("AccesstoImageGeneratorData5", 2000034), ("AccesstoImageGeneratorData6", 2000035), ("AccesstoImageGeneratorData7", 2000036), ("AccesstoImageGeneratorData8", 2000037), ("AccesstoImageGeneratorData9", 2000038), ("AccesstoImageGeneratorData10", 2000039), ("AccesstoImageGeneratorData11", 2000040), ("AccesstoImageGeneratorData12", 2000041), ("AccesstoImageGeneratorData13", 2000042), ("AccesstoImageGeneratorData14", 2000043), ("AccesstoImageGeneratorData15", 2000044), ("AccesstoImageGeneratorData16", 2000045), ("HostLoadNumber", 2000050), ("ExtendedFireEventReports", 5005001), ("BattleDamageAssessmentEventReport", 5005002), ("ExtendedFireEventLauncher", 5005003), ("ExtendedFireEventMissile", 5005006), ("ExtendedFireEventMRMWeapon", 5005008), ("ExtendedFireEventGunFireControl", 5005009), ("ExtendedFireEventBomb", 5005010), ("ExtendedFireEventExpendable", 5005011), ("BattleDamageAssessment", 5005012), ("ExtendedFirePickleEvent", 5005014), ("RadarTrackReport", 5005055), ("JammerReport", 5005060), ("JammerFalseTargetsReport", 5005061), ("DetectEventReport", 5005063), ("MALDBeamReport", 5005070), ("TransmitterRadiationVolume", 5005080), ("TransmitterRadiationVolumev2", 5005081), ("PhysicalNetworkDefinition", 5007010), ("NetworkChannelDefinition", 5007020), ("LogicalNetworkDefinition", 5007030), ("LogicalNetworkEntityDefinition", 5007040), ("PhysicalNetworkEntityDefinition", 5007050), ("C2Message", 5008010), ("CandidateObject", 5008020), ("SetofCandidateObjects", 5008030), ("BoundedRegion", 5008040), ("AngularRegion", 5008050), ("RoEObject", 5008060), ("TrackObject", 5008070), ("SetOfTrackObjects", 5008080), ("LogicalEntityDefinition", 5009010), ("LogicalEntityRelationshipDefinition", 5009020), ("IntentBasedEWMessage", 5507010)], actual: || vec![VariableRecordTypes::EntityIDList as u64, VariableRecordTypes::DDCPJoinTransactionJoinRequestMessage as u64, VariableRecordTypes::DDCPSetPlaybackWindowTransactionSetPlaybackWindowRequestMessage as u64, VariableRecordTypes::DDCPLoadMissionRecordingTransactionLoadMissionRecordingRequestMessage as u64, VariableRecordTypes::DDCPCueTransactionCueRequestMessage as u64, VariableRecordTypes::DDCPPlayTransactionPlayRequestMessage as u64, VariableRecordTypes::DDCPStopTransactionStopRequestMessage as u64, VariableRecordTypes::DDCPPauseTransactionPauseRequestMessage as u64, VariableRecordTypes::DDCPEndTransactionEndRequestMessage as u64, VariableRecordTypes::DDCPJoinResponseMessage as u64, VariableRecordTypes::DDCPRequestReceiptMessage as u64, VariableRecordTypes::DDCPPlaybackWindowConfirmedMessage as u64, VariableRecordTypes::DDCPMissionRecordingLoadedMessage as u64, VariableRecordTypes::DDCPCueConfirmedMessage as u64, VariableRecordTypes::DDCPTimetoCompleteMessage as u64, VariableRecordTypes::DDCPPlayCommencedMessage as u64, VariableRecordTypes::DDCPStopConfirmedMessage as u64, VariableRecordTypes::DDCPPauseConfirmedMessage as u64, VariableRecordTypes::DDCPEndResponseMessage as u64, VariableRecordTypes::DDCPMasterAnnounceMessage as u64, VariableRecordTypes::DDCPDeviceAnnounceMessage as u64, VariableRecordTypes::DDCPDeviceExitMessage as u64, VariableRecordTypes::DDCPDeviceHeartbeatMessage as u64, VariableRecordTypes::DDCPMasterTimeSyncMessage as u64, VariableRecordTypes::DDCPErrorMessage as u64, VariableRecordTypes::DDCPMasterStopSyncMessage as u64, VariableRecordTypes::DDCPMasterTransitionMessage as u64, VariableRecordTypes::MissionTime as u64, VariableRecordTypes::HighFidelityHAVEQUICKSATURNRadio as u64, VariableRecordTypes::BlankingSectorattributerecord as u64, VariableRecordTypes::AngleDeceptionattributerecord as u64, VariableRecordTypes::FalseTargetsattributerecord as u64, VariableRecordTypes::DEPrecisionAimpointrecord as u64, VariableRecordTypes::DEAreaAimpointrecord as u64, VariableRecordTypes::DirectedEnergyDamageDescriptionrecord as u64, VariableRecordTypes::CryptoControl as u64, VariableRecordTypes::Mode5STransponderLocation as u64, VariableRecordTypes::Mode5STransponderLocationError as u64, VariableRecordTypes::SquitterAirbornePositionReport as u64, VariableRecordTypes::SquitterAirborneVelocityReport as u64, VariableRecordTypes::SquitterSurfacePositionReport as u64, VariableRecordTypes::SquitterIdentificationReport as u64, VariableRecordTypes::GICB as u64, VariableRecordTypes::SquitterEventDrivenReport as u64, VariableRecordTypes::AntennaLocation as u64, VariableRecordTypes::BasicInteractive as u64, VariableRecordTypes::InteractiveMode4Reply as u64, VariableRecordTypes::InteractiveMode5Reply as u64, VariableRecordTypes::InteractiveBasicMode5 as u64, VariableRecordTypes::InteractiveBasicModeS as u64, VariableRecordTypes::IOEffect as u64, VariableRecordTypes::IOCommunicationsNode as u64, VariableRecordTypes::Identification1 as u64, VariableRecordTypes::TrainerInitialConditionsFilename as u64, VariableRecordTypes::Increment3_1MissionDataLoadName as u64, VariableRecordTypes::Increment2MissionDataLoadName as u64, VariableRecordTypes::SetMarkpointCommand as u64, VariableRecordTypes::MarkpointID as u64, VariableRecordTypes::ReactionLevel as u64, VariableRecordTypes::WeaponReload as u64, VariableRecordTypes::CESEntitySetClearStatus as u64, VariableRecordTypes::ActivateEntity as u64, VariableRecordTypes::DisengageReengage1 as u64, VariableRecordTypes::FuelFreeze as u64, VariableRecordTypes::FireLaunchDispense as u64, VariableRecordTypes::TargetAssignment as u64, VariableRecordTypes::CICEnable as u64, VariableRecordTypes::ShootInhibit as u64, VariableRecordTypes::Posture as u64, VariableRecordTypes::JammerState as u64, VariableRecordTypes::JammerType as u64, VariableRecordTypes::DynamicTargeting as u64, VariableRecordTypes::ManualJammingOnOverride as u64, VariableRecordTypes::SOJAxis as u64, VariableRecordTypes::EmitterOverride1 as u64, VariableRecordTypes::Shields1 as u64, VariableRecordTypes::CrashOverride as u64, VariableRecordTypes::StopBuzzer as u64, VariableRecordTypes::TargetLasingOnOff as u64, VariableRecordTypes::TargetLasingLaserCode as u64, VariableRecordTypes::PowerPlant as u64, VariableRecordTypes::TacticalLightingOnOffControlLightControl as u64, VariableRecordTypes::TacticalLightingBlinkerControlBlinkerValue as u64, VariableRecordTypes::TacticalLightingOnOffControlLightControlType as u64, VariableRecordTypes::ParkVehicle as u64, VariableRecordTypes::SignalingOnOff as u64, VariableRecordTypes::SignalingDevice as u64, VariableRecordTypes::OwnshipID as u64, VariableRecordTypes::StateChange as u64, VariableRecordTypes::EntityType1 as u64, VariableRecordTypes::Concatenated as u64, VariableRecordTypes::Kind as u64, VariableRecordTypes::Domain as u64, VariableRecordTypes::Country as u64, VariableRecordTypes::Category as u64, VariableRecordTypes::Subcategory as u64, VariableRecordTypes::Specific as u64, VariableRecordTypes::Extra as u64, VariableRecordTypes::ForceID1 as u64, VariableRecordTypes::ForceID2 as u64, VariableRecordTypes::Description as u64, VariableRecordTypes::TankerBoomControl as u64, VariableRecordTypes::AirportLights as u64, VariableRecordTypes::WeatherPost as u64, VariableRecordTypes::LocalizerandGlideSlope as u64, VariableRecordTypes::TACANNavAids as u64, VariableRecordTypes::AlternativeEntityType1 as u64, VariableRecordTypes::Kind2 as u64, VariableRecordTypes::Domain2 as u64, VariableRecordTypes::Country2 as u64, VariableRecordTypes::Category2 as u64, VariableRecordTypes::Subcategory2 as u64, VariableRecordTypes::Specific2 as u64, VariableRecordTypes::Extra2 as u64, VariableRecordTypes::Description2 as u64, VariableRecordTypes::EntityMarking as u64, VariableRecordTypes::EntityMarkingCharacters as u64, VariableRecordTypes::CrewID as u64, VariableRecordTypes::TaskOrganization as u64, VariableRecordTypes::RegimentName as u64, VariableRecordTypes::BattalionName as u64, VariableRecordTypes::CompanyName as u64, VariableRecordTypes::PlatoonName as u64, VariableRecordTypes::SquadName as u64, VariableRecordTypes::TeamName as u64, VariableRecordTypes::BumperNumber as u64, VariableRecordTypes::VehicleNumber as u64, VariableRecordTypes::UnitNumber as u64, VariableRecordTypes::DISIdentity as u64, VariableRecordTypes::DISSiteID as u64, VariableRecordTypes::DISHostID as u64, VariableRecordTypes::DISEntityID as u64, VariableRecordTypes::MountIntent as u64, VariableRecordTypes::TetherUnthetherCommandID as u64, VariableRecordTypes::TeleportEntityDataRecord as u64, VariableRecordTypes::DISAggregateID as u64, VariableRecordTypes::OwnershipStatus as u64, VariableRecordTypes::Reconstitute as u64, VariableRecordTypes::Loads as u64, VariableRecordTypes::CrewMembers as u64, VariableRecordTypes::CrewMemberID as u64, VariableRecordTypes::Health as u64, VariableRecordTypes::JobAssignment as u64, VariableRecordTypes::Fuel as u64, VariableRecordTypes::Quantity1 as u64, VariableRecordTypes::Quantity2 as u64, VariableRecordTypes::Ammunition as u64, VariableRecordTypes::_120mmHEATquantity as u64, VariableRecordTypes::_120mmSABOTquantity as u64, VariableRecordTypes::_12_7mmM8quantity as u64, VariableRecordTypes::_12_7mmM20quantity as u64, VariableRecordTypes::_7_62mmM62quantity as u64, VariableRecordTypes::M250UKL8A1quantity as u64, VariableRecordTypes::M250UKL8A3quantity as u64, VariableRecordTypes::_7_62mmM80quantity as u64, VariableRecordTypes::_12_7mmquantity as u64, VariableRecordTypes::_7_62mmquantity as u64, VariableRecordTypes::Minesquantity as u64, VariableRecordTypes::Type as u64, VariableRecordTypes::Kind3 as u64, VariableRecordTypes::Domain3 as u64, VariableRecordTypes::Country3 as u64, VariableRecordTypes::Category3 as u64, VariableRecordTypes::Subcategory3 as u64, VariableRecordTypes::Extra3 as u64, VariableRecordTypes::Description3 as u64, VariableRecordTypes::Cargo as u64, VariableRecordTypes::VehicleMass as u64, VariableRecordTypes::SupplyQuantity as u64, VariableRecordTypes::Armament as u64, VariableRecordTypes::Status as u64, VariableRecordTypes::Activateentity as u64, VariableRecordTypes::SubscriptionState as u64, VariableRecordTypes::Roundtriptimedelay as u64, VariableRecordTypes::TADILJmessagecountLabel0 as u64, VariableRecordTypes::TADILJmessagecountLabel1 as u64, VariableRecordTypes::TADILJmessagecountLabel2 as u64, VariableRecordTypes::TADILJmessagecountLabel3 as u64, VariableRecordTypes::TADILJmessagecountLabel4 as u64, VariableRecordTypes::TADILJmessagecountLabel5 as u64, VariableRecordTypes::TADILJmessagecountLabel6 as u64, VariableRecordTypes::TADILJmessagecountLabel7 as u64, VariableRecordTypes::TADILJmessagecountLabel8 as u64, VariableRecordTypes::TADILJmessagecountLabel9 as u64, VariableRecordTypes::TADILJmessagecountLabel10 as u64, VariableRecordTypes::TADILJmessagecountLabel11 as u64, VariableRecordTypes::TADILJmessagecountLabel12 as u64, VariableRecordTypes::TADILJmessagecountLabel13 as u64, VariableRecordTypes::TADILJmessagecountLabel14 as u64, VariableRecordTypes::TADILJmessagecountLabel15 as u64, VariableRecordTypes::TADILJmessagecountLabel16 as u64, VariableRecordTypes::TADILJmessagecountLabel17 as u64, VariableRecordTypes::TADILJmessagecountLabel18 as u64, VariableRecordTypes::TADILJmessagecountLabel19 as u64, VariableRecordTypes::TADILJmessagecountLabel20 as u64, VariableRecordTypes::TADILJmessagecountLabel21 as u64, VariableRecordTypes::TADILJmessagecountLabel22 as u64, VariableRecordTypes::TADILJmessagecountLabel23 as u64, VariableRecordTypes::TADILJmessagecountLabel24 as u64, VariableRecordTypes::TADILJmessagecountLabel25 as u64, VariableRecordTypes::TADILJmessagecountLabel26 as u64, VariableRecordTypes::TADILJmessagecountLabel27 as u64, VariableRecordTypes::TADILJmessagecountLabel28 as u64, VariableRecordTypes::TADILJmessagecountLabel29 as u64, VariableRecordTypes::TADILJmessagecountLabel30 as u64, VariableRecordTypes::TADILJmessagecountLabel31 as u64, VariableRecordTypes::Position as u64, VariableRecordTypes::Routetype as u64, VariableRecordTypes::MilGrid10 as u64, VariableRecordTypes::GeocentricCoordinates as u64, VariableRecordTypes::X as u64, VariableRecordTypes::Y as u64, VariableRecordTypes::Z as u64, VariableRecordTypes::Latitude1 as u64, VariableRecordTypes::Longitude1 as u64, VariableRecordTypes::LineofSight as u64, VariableRecordTypes::X1 as u64, VariableRecordTypes::Y1 as u64, VariableRecordTypes::Z1 as u64, VariableRecordTypes::Altitude2 as u64, VariableRecordTypes::DestinationLatitude as u64, VariableRecordTypes::DestinationLongitude as u64, VariableRecordTypes::DestinationAltitude as u64, VariableRecordTypes::Orientation as u64, VariableRecordTypes::HullHeadingAngle as u64, VariableRecordTypes::HullPitchAngle as u64, VariableRecordTypes::RollAngle as u64, VariableRecordTypes::X2 as u64, VariableRecordTypes::Y2 as u64, VariableRecordTypes::Z2 as u64, VariableRecordTypes::Appearance as u64, VariableRecordTypes::AmbientLighting as u64, VariableRecordTypes::Lights1 as u64, VariableRecordTypes::PaintScheme as u64, VariableRecordTypes::Smoke as u64, VariableRecordTypes::TrailingEffects as u64, VariableRecordTypes::Flaming as u64, VariableRecordTypes::Marking as u64, VariableRecordTypes::MinePlowsAttached as u64, VariableRecordTypes::MineRollersAttached as u64, VariableRecordTypes::TankTurretAzimuth as u64, VariableRecordTypes::FailuresandMalfunctions as u64, VariableRecordTypes::Age as u64, VariableRecordTypes::Kilometers as u64, VariableRecordTypes::Damage as u64, VariableRecordTypes::Cause as u64, VariableRecordTypes::MobilityKill1 as u64, VariableRecordTypes::FirePowerKill as u64, VariableRecordTypes::PersonnelCasualties as u64, VariableRecordTypes::Velocity as u64, VariableRecordTypes::Xvelocity as u64, VariableRecordTypes::Yvelocity as u64, VariableRecordTypes::Zvelocity as u64, VariableRecordTypes::Speed1 as u64, VariableRecordTypes::Acceleration as u64, VariableRecordTypes::Xacceleration as u64, VariableRecordTypes::Yacceleration as u64, VariableRecordTypes::Zacceleration as u64, VariableRecordTypes::EngineStatus as u64, VariableRecordTypes::PrimaryTargetLine as u64, VariableRecordTypes::Exercise as u64, VariableRecordTypes::ExerciseState as u64, VariableRecordTypes::RestartRefresh as u64, VariableRecordTypes::AFATDSFileName as u64, VariableRecordTypes::TerrainDatabase as u64, VariableRecordTypes::Missions as u64, VariableRecordTypes::MissionID as u64, VariableRecordTypes::MissionType as u64, VariableRecordTypes::MissionRequestTimeStamp as u64, VariableRecordTypes::ExerciseDescription as u64, VariableRecordTypes::Name as u64, VariableRecordTypes::Entities as u64, VariableRecordTypes::Version as u64, VariableRecordTypes::GuiseMode as u64, VariableRecordTypes::SimulationApplicationActiveStatus as u64, VariableRecordTypes::SimulationApplicationRoleRecord as u64, VariableRecordTypes::SimulationApplicationState as u64, VariableRecordTypes::VisualOutputMode as u64, VariableRecordTypes::SimulationManagerRole as u64, VariableRecordTypes::SimulationManagerSiteID as u64, VariableRecordTypes::SimulationManagerApplicID as u64, VariableRecordTypes::SimulationManagerEntityID as u64, VariableRecordTypes::SimulationManagerActiveStatus as u64, VariableRecordTypes::AfterActiveReviewRole as u64, VariableRecordTypes::AfterActiveReviewSiteID as u64, VariableRecordTypes::AfterActiveApplicID as u64, VariableRecordTypes::AfterActiveReviewEntityID as u64, VariableRecordTypes::AfterActiveReviewActiveStatus as u64, VariableRecordTypes::ExerciseLoggerRole as u64, VariableRecordTypes::ExerciseLoggerSiteID as u64, VariableRecordTypes::ExerciseLoggerApplicID as u64, VariableRecordTypes::ExerciseEntityID as u64, VariableRecordTypes::ExerciseLoggerActiveStatus as u64, VariableRecordTypes::SyntheticEnvironmentManagerRole as u64, VariableRecordTypes::SyntheticEnvironmentManagerSiteID as u64, VariableRecordTypes::SyntheticEnvironmentManagerApplicID as u64, VariableRecordTypes::SyntheticEnvironmentManagerEntityID as u64, VariableRecordTypes::SyntheticEnvironmentManagerActiveStatus as u64, VariableRecordTypes::SIMNETDISTranslatorRole as u64, VariableRecordTypes::SIMNETDISTranslatorSiteID as u64, VariableRecordTypes::SIMNETDISTranslatorApplicID as u64, VariableRecordTypes::SIMNETDISTranslatorEntityID as u64, VariableRecordTypes::SIMNETDISTranslatorActiveStatus as u64, VariableRecordTypes::ApplicationRate as u64, VariableRecordTypes::ApplicationTime as u64, VariableRecordTypes::ApplicationTimestep as u64, VariableRecordTypes::FeedbackTime as u64, VariableRecordTypes::SimulationRate as u64, VariableRecordTypes::SimulationTime as u64, VariableRecordTypes::SimulationTimestep as u64, VariableRecordTypes::TimeInterval as u64, VariableRecordTypes::TimeLatency as u64, VariableRecordTypes::TimeScheme as u64, VariableRecordTypes::ExerciseElapsedTime as u64, VariableRecordTypes::ElapsedTime as u64, VariableRecordTypes::Environment as u64, VariableRecordTypes::ScenarioDate as u64, VariableRecordTypes::TimeDateValid as u64, VariableRecordTypes::ScenarioTime as u64, VariableRecordTypes::SnowEnableDisable as u64, VariableRecordTypes::WeatherAttributesRequest as u64, VariableRecordTypes::METHeartbeatMessage as u64, VariableRecordTypes::ContrailsEnable as u64, VariableRecordTypes::ContrailAltitudes as u64, VariableRecordTypes::Weather1 as u64, VariableRecordTypes::WeatherCondition as u64, VariableRecordTypes::ThermalCondition as u64, VariableRecordTypes::ThermalVisibility1 as u64, VariableRecordTypes::ThermalVisibility2 as u64, VariableRecordTypes::Time1 as u64, VariableRecordTypes::Time2 as u64, VariableRecordTypes::TimeofDayDiscrete as u64, VariableRecordTypes::TimeofDayContinuous as u64, VariableRecordTypes::TimeMode as u64, VariableRecordTypes::TimeScene as u64, VariableRecordTypes::CurrentHour as u64, VariableRecordTypes::CurrentMinute as u64, VariableRecordTypes::CurrentSecond as u64, VariableRecordTypes::Azimuth1 as u64, VariableRecordTypes::MaximumElevation as u64, VariableRecordTypes::TimeZone as u64, VariableRecordTypes::TimeRate as u64, VariableRecordTypes::TheNumberOfSimulationSecondsSinceTheStartOfTheExercise as u64, VariableRecordTypes::TimeSunriseEnabled as u64, VariableRecordTypes::SunriseHour as u64, VariableRecordTypes::SunriseMinute as u64, VariableRecordTypes::SunriseSecond as u64, VariableRecordTypes::SunriseAzimuth as u64, VariableRecordTypes::TimeSunsetEnabled as u64, VariableRecordTypes::SunsetHour1 as u64, VariableRecordTypes::SunsetHour2 as u64, VariableRecordTypes::SunsetMinute as u64, VariableRecordTypes::SunsetSecond as u64, VariableRecordTypes::Date1 as u64, VariableRecordTypes::DateEuropean as u64, VariableRecordTypes::DateUS as u64, VariableRecordTypes::Month as u64, VariableRecordTypes::Day as u64, VariableRecordTypes::Year as u64, VariableRecordTypes::Clouds as u64, VariableRecordTypes::CloudLayerEnable as u64, VariableRecordTypes::CloudLayerSelection as u64, VariableRecordTypes::Visibility as u64, VariableRecordTypes::BaseAltitude1 as u64, VariableRecordTypes::BaseAltitude2 as u64, VariableRecordTypes::Ceiling1 as u64, VariableRecordTypes::Ceiling2 as u64, VariableRecordTypes::Characteristics as u64, VariableRecordTypes::ConcentrationLength as u64, VariableRecordTypes::Transmittance as u64, VariableRecordTypes::Radiance as u64, VariableRecordTypes::Precipitation as u64, VariableRecordTypes::Rain as u64, VariableRecordTypes::Fog as u64, VariableRecordTypes::Visibility1 as u64, VariableRecordTypes::Visibility2 as u64, VariableRecordTypes::Visibility3 as u64, VariableRecordTypes::Density1 as u64, VariableRecordTypes::Base as u64, VariableRecordTypes::ViewLayerfromabove_ as u64, VariableRecordTypes::TransitionRange as u64, VariableRecordTypes::Bottom1 as u64, VariableRecordTypes::Bottom2 as u64, VariableRecordTypes::Ceiling3 as u64, VariableRecordTypes::Ceiling4 as u64, VariableRecordTypes::HeavenlyBodies as u64, VariableRecordTypes::Sun as u64, VariableRecordTypes::SunVisible as u64, VariableRecordTypes::Position1 as u64, VariableRecordTypes::SunPositionElevationDegrees as u64, VariableRecordTypes::PositionAzimuth1 as u64, VariableRecordTypes::SunPositionAzimuthDegrees as u64, VariableRecordTypes::PositionElevation1 as u64, VariableRecordTypes::PositionIntensity1 as u64, VariableRecordTypes::Moon as u64, VariableRecordTypes::MoonVisible as u64, VariableRecordTypes::Position2 as u64, VariableRecordTypes::PositionAzimuth2 as u64, VariableRecordTypes::MoonPositionAzimuthDegrees as u64, VariableRecordTypes::PositionElevation2 as u64, VariableRecordTypes::MoonPositionElevationDegrees as u64, VariableRecordTypes::PositionIntensity2 as u64, VariableRecordTypes::Horizon as u64, VariableRecordTypes::HorizonAzimuth as u64, VariableRecordTypes::HorizonElevation as u64, VariableRecordTypes::HorizonHeading as u64, VariableRecordTypes::HorizonIntensity as u64, VariableRecordTypes::Humidity as u64, VariableRecordTypes::Visibility4 as u64, VariableRecordTypes::Winds as u64, VariableRecordTypes::Speed2 as u64, VariableRecordTypes::WindSpeedKnots as u64, VariableRecordTypes::WindDirection1 as u64, VariableRecordTypes::WindDirectionDegrees as u64, VariableRecordTypes::Rainsoak as u64, VariableRecordTypes::TideSpeed as u64, VariableRecordTypes::TideSpeedKnots as u64, VariableRecordTypes::TideDirection as u64, VariableRecordTypes::TideDirectionDegrees as u64, VariableRecordTypes::Haze as u64, VariableRecordTypes::Visibility5 as u64, VariableRecordTypes::Visibility6 as u64, VariableRecordTypes::Density2 as u64, VariableRecordTypes::Ceiling5 as u64, VariableRecordTypes::Ceiling6 as u64, VariableRecordTypes::ContaminantsandObscurants as u64, VariableRecordTypes::ContaminantObscurantType as u64, VariableRecordTypes::Persistence as u64, VariableRecordTypes::ChemicalDosage as u64, VariableRecordTypes::ChemicalAirConcentration as u64, VariableRecordTypes::ChemicalGroundDeposition as u64, VariableRecordTypes::ChemicalMaximumGroundDeposition as u64, VariableRecordTypes::ChemicalDosageThreshold as u64, VariableRecordTypes::BiologicalDosage as u64, VariableRecordTypes::BiologicalAirConcentration as u64, VariableRecordTypes::BiologicalDosageThreshold as u64, VariableRecordTypes::BiologicalBinnedParticleCount as u64, VariableRecordTypes::RadiologicalDosage as u64, VariableRecordTypes::Communications as u64, VariableRecordTypes::FireBottleReload as u64, VariableRecordTypes::ChannelType1 as u64, VariableRecordTypes::ChannelType2 as u64, VariableRecordTypes::ChannelIdentification as u64, VariableRecordTypes::AlphaIdentification as u64, VariableRecordTypes::RadioIdentification as u64, VariableRecordTypes::LandLineIdentification as u64, VariableRecordTypes::IntercomIdentification as u64, VariableRecordTypes::GroupNetworkChannelNumber as u64, VariableRecordTypes::RadioCommunicationsStatus as u64, VariableRecordTypes::BoomInterphone as u64, VariableRecordTypes::StationaryRadioTransmittersDefaultTime as u64, VariableRecordTypes::MovingRadioTransmittersDefaultTime as u64, VariableRecordTypes::StationaryRadioSignalsDefaultTime as u64, VariableRecordTypes::MovingRadioSignalDefaultTime as u64, VariableRecordTypes::RadioInitializationTransecSecurityKey as u64, VariableRecordTypes::RadioInitializationInternalNoiseLevel as u64, VariableRecordTypes::RadioInitializationSquelchThreshold as u64, VariableRecordTypes::RadioInitializationAntennaLocation as u64, VariableRecordTypes::RadioInitializationAntennaPatternType as u64, VariableRecordTypes::RadioInitializationAntennaPatternLength as u64, VariableRecordTypes::RadioInitializationBeamDefinition as u64, VariableRecordTypes::RadioInitializationTransmitHeartbeatTime as u64, VariableRecordTypes::RadioInitializationTransmitDistanceThresholdVariableRecord as u64, VariableRecordTypes::RadioChannelInitializationLockoutID as u64, VariableRecordTypes::RadioChannelInitializationHopsetID as u64, VariableRecordTypes::RadioChannelInitializationPresetFrequency as u64, VariableRecordTypes::RadioChannelInitializationFrequencySyncTime as u64, VariableRecordTypes::RadioChannelInitializationComsecKey as u64, VariableRecordTypes::RadioChannelInitializationAlpha as u64, VariableRecordTypes::AlgorithmParameters as u64, VariableRecordTypes::DeadReckoningAlgorithm1 as u64, VariableRecordTypes::DRALocationThreshold as u64, VariableRecordTypes::DRAOrientationThreshold as u64, VariableRecordTypes::DRATimeThreshold as u64, VariableRecordTypes::SimulationManagementParameters as u64, VariableRecordTypes::CheckpointInterval as u64, VariableRecordTypes::TransmitterTimeThreshold as u64, VariableRecordTypes::ReceiverTimeThreshold as u64, VariableRecordTypes::InteroperabilityMode as u64, VariableRecordTypes::SIMNETDataCollection as u64, VariableRecordTypes::EventID as u64, VariableRecordTypes::SourceSiteID as u64, VariableRecordTypes::SourceHostID as u64, VariableRecordTypes::ArticulatedParts as u64, VariableRecordTypes::PartID as u64, VariableRecordTypes::Index as u64, VariableRecordTypes::Position3 as u64, VariableRecordTypes::PositionRate as u64, VariableRecordTypes::Extension as u64, VariableRecordTypes::ExtensionRate as u64, VariableRecordTypes::X3 as u64, VariableRecordTypes::Xrate as u64, VariableRecordTypes::Y3 as u64, VariableRecordTypes::Yrate as u64, VariableRecordTypes::Z3 as u64, VariableRecordTypes::Zrate as u64, VariableRecordTypes::Azimuth2 as u64, VariableRecordTypes::AzimuthRate as u64, VariableRecordTypes::Elevation as u64, VariableRecordTypes::ElevationRate as u64, VariableRecordTypes::Rotation2 as u64, VariableRecordTypes::RotationRate as u64, VariableRecordTypes::DRAAngularXVelocity as u64, VariableRecordTypes::DRAAngularYVelocity as u64, VariableRecordTypes::DRAAngularZVelocity as u64, VariableRecordTypes::AppearanceTrailingEffects as u64, VariableRecordTypes::AppearanceHatch as u64, VariableRecordTypes::AppearanceCharacterSet as u64, VariableRecordTypes::CapabilityAmmunitionSupplier as u64, VariableRecordTypes::CapabilityMiscellaneousSupplier as u64, VariableRecordTypes::CapabilityRepairProvider as u64, VariableRecordTypes::ArticulationParameter as u64, VariableRecordTypes::ArticulationParameterType1 as u64, VariableRecordTypes::ArticulationParameterValue1 as u64, VariableRecordTypes::TimeofDayScene as u64, VariableRecordTypes::LatitudeNorth as u64, VariableRecordTypes::LongitudeEast as u64, VariableRecordTypes::TacticalDriverStatus as u64, VariableRecordTypes::SonarSystemStatus as u64, VariableRecordTypes::Accomplishedaccept as u64, VariableRecordTypes::Upperlatitude as u64, VariableRecordTypes::LatitudeSouth as u64, VariableRecordTypes::Westernlongitude as u64, VariableRecordTypes::LongitudeWest as u64, VariableRecordTypes::CDROMNumber as u64, VariableRecordTypes::DTEDdiskID as u64, VariableRecordTypes::Altitude3 as u64, VariableRecordTypes::TacticalSystemStatus as u64, VariableRecordTypes::JTIDSStatus as u64, VariableRecordTypes::TADILJStatus as u64, VariableRecordTypes::DSDDStatus as u64, VariableRecordTypes::WeaponSystemStatus as u64, VariableRecordTypes::Subsystemstatus as u64, VariableRecordTypes::Numberofinterceptorsfired as u64, VariableRecordTypes::Numberofinterceptordetonations as u64, VariableRecordTypes::Numberofmessagebuffersdropped as u64, VariableRecordTypes::Satellitesensorbackground1 as u64, VariableRecordTypes::Satellitesensorbackground2 as u64, VariableRecordTypes::ScriptNumber as u64, VariableRecordTypes::EntityTrackUpdateData as u64, VariableRecordTypes::LocalForceTraining as u64, VariableRecordTypes::EntityTrackIdentityData as u64, VariableRecordTypes::EntityforTrackEvent as u64, VariableRecordTypes::IFFstatus as u64, VariableRecordTypes::EngagementData as u64, VariableRecordTypes::TargetLatitude as u64, VariableRecordTypes::TargetLongitude as u64, VariableRecordTypes::AreaofInterestCenterLatitude as u64, VariableRecordTypes::AreaofInterestCenterLongitude as u64, VariableRecordTypes::AreaofInterestRadius as u64, VariableRecordTypes::AreaofInterestType as u64, VariableRecordTypes::TargetAggregateID as u64, VariableRecordTypes::GICIdentificationNumber as u64, VariableRecordTypes::EstimatedTimeofFlighttoTBMImpact as u64, VariableRecordTypes::EstimatedInterceptTime as u64, VariableRecordTypes::EstimatedTimeofFlighttoNextWaypoint as u64, VariableRecordTypes::EntityTrackEquipmentData as u64, VariableRecordTypes::EmissionEWData as u64, VariableRecordTypes::AppearanceData as u64, VariableRecordTypes::CommandOrderData as u64, VariableRecordTypes::EnvironmentalData as u64, VariableRecordTypes::SignificantEventData as u64, VariableRecordTypes::OperatorActionData as u64, VariableRecordTypes::ADAEngagementMode as u64, VariableRecordTypes::ADAShootingStatus as u64, VariableRecordTypes::ADAMode as u64, VariableRecordTypes::ADARadarStatus as u64, VariableRecordTypes::ShootCommand as u64, VariableRecordTypes::ADAWeaponStatus as u64, VariableRecordTypes::ADAFiringDisciple as u64, VariableRecordTypes::OrderStatus as u64, VariableRecordTypes::TimeSynchronization as u64, VariableRecordTypes::TomahawkData as u64, VariableRecordTypes::NumberofDetonations as u64, VariableRecordTypes::NumberofIntercepts as u64, VariableRecordTypes::OBTControlMT201 as u64, VariableRecordTypes::SensorDataMT202 as u64, VariableRecordTypes::EnvironmentalDataMT203 as u64, VariableRecordTypes::OwnshipDataMT204 as u64, VariableRecordTypes::AcousticContactDataMT205 as u64, VariableRecordTypes::SonobuoyDataMT207 as u64, VariableRecordTypes::SonobuoyContactDataMT210 as u64, VariableRecordTypes::HeloControlMT211 as u64, VariableRecordTypes::ESMControlData as u64, VariableRecordTypes::ESMContactDataMT214 as u64, VariableRecordTypes::ESMEmitterDataMT215 as u64, VariableRecordTypes::WeaponDefinitionDataMT217 as u64, VariableRecordTypes::WeaponPresetDataMT217 as u64, VariableRecordTypes::OBTControlMT301 as u64, VariableRecordTypes::SensorDataMT302 as u64, VariableRecordTypes::EnvironmentalDataMT303m as u64, VariableRecordTypes::OwnshipDataMT304 as u64, VariableRecordTypes::AcousticContactDataMT305 as u64, VariableRecordTypes::SonobuoyDataMT307 as u64, VariableRecordTypes::SonobuoyContactDataMT310 as u64, VariableRecordTypes::HeloScenarioEquipmentStatus as u64, VariableRecordTypes::ESMControlDataMT313 as u64, VariableRecordTypes::ESMContactDataMT314 as u64, VariableRecordTypes::ESMEmitterDataMT315 as u64, VariableRecordTypes::WeaponDefinitionDataMT316 as u64, VariableRecordTypes::WeaponPresetDataMT317 as u64, VariableRecordTypes::PairingAssociation as u64, VariableRecordTypes::Pointer as u64, VariableRecordTypes::ReportingResponsibility as u64, VariableRecordTypes::TrackNumber as u64, VariableRecordTypes::IDforLink11Reporting as u64, VariableRecordTypes::RemoteTrack as u64, VariableRecordTypes::Link11ErrorRate as u64, VariableRecordTypes::TrackQuality as u64, VariableRecordTypes::Gridlock as u64, VariableRecordTypes::Kill as u64, VariableRecordTypes::TrackIDChangeResolution as u64, VariableRecordTypes::WeaponsStatus as u64, VariableRecordTypes::Link11Operator as u64, VariableRecordTypes::ForceTrainingTransmit as u64, VariableRecordTypes::ForceTrainingReceive as u64, VariableRecordTypes::InterceptorAmplification1 as u64, VariableRecordTypes::Consumables1 as u64, VariableRecordTypes::Link11LocalTrackQuality as u64, VariableRecordTypes::DLRP as u64, VariableRecordTypes::ForceOrder as u64, VariableRecordTypes::WilcoCantco as u64, VariableRecordTypes::EMCBearing as u64, VariableRecordTypes::ChangeTrackEligibility as u64, VariableRecordTypes::LandMassReferencePoint as u64, VariableRecordTypes::SystemReferencePoint as u64, VariableRecordTypes::PUAmplification as u64, VariableRecordTypes::SetDrift as u64, VariableRecordTypes::BeginInitialization as u64, VariableRecordTypes::StatusandControl as u64, VariableRecordTypes::ScintillationChange as u64, VariableRecordTypes::Link11IDControl as u64, VariableRecordTypes::PUGuardList as u64, VariableRecordTypes::WindsAloft as u64, VariableRecordTypes::SurfaceWinds as u64, VariableRecordTypes::SeaState as u64, VariableRecordTypes::MagneticVariation as u64, VariableRecordTypes::TrackEligibility as u64, VariableRecordTypes::TrainingTrackNotification as u64, VariableRecordTypes::TacanData as u64, VariableRecordTypes::InterceptorAmplification2 as u64, VariableRecordTypes::TacanAssignment as u64, VariableRecordTypes::AutopilotStatus as u64, VariableRecordTypes::Consumables2 as u64, VariableRecordTypes::Downlink as u64, VariableRecordTypes::TINReport as u64, VariableRecordTypes::SpecialPointControl as u64, VariableRecordTypes::ControlDiscretes as u64, VariableRecordTypes::RequestTargetDiscretes as u64, VariableRecordTypes::TargetDiscretes as u64, VariableRecordTypes::ReplyDiscretes as u64, VariableRecordTypes::CommandManeuvers as u64, VariableRecordTypes::TargetData as u64, VariableRecordTypes::TargetPointer as u64, VariableRecordTypes::InterceptData as u64, VariableRecordTypes::DecrementMissileInventory as u64, VariableRecordTypes::Link4AAlert as u64, VariableRecordTypes::StrikeControl as u64, VariableRecordTypes::SpeedChange as u64, VariableRecordTypes::CourseChange as u64, VariableRecordTypes::AltitudeChange as u64, VariableRecordTypes::ACLSANSPN46Status as u64, VariableRecordTypes::ACLSAircraftReport as u64, VariableRecordTypes::SPS67RadarOperatorFunctions as u64, VariableRecordTypes::SPS55RadarOperatorFunctions as u64, VariableRecordTypes::SPQ9ARadarOperatorFunctions as u64, VariableRecordTypes::SPS49RadarOperatorFunctions as u64, VariableRecordTypes::MK23RadarOperatorFunctions as u64, VariableRecordTypes::SPS48RadarOperatorFunctions as u64, VariableRecordTypes::SPS40RadarOperatorFunctions as u64, VariableRecordTypes::MK95RadarOperatorFunctions as u64, VariableRecordTypes::KillNoKill as u64, VariableRecordTypes::CMTpc as u64, VariableRecordTypes::CMC4AirGlobalData as u64, VariableRecordTypes::CMC4GlobalData as u64, VariableRecordTypes::LINKSIMCOMMENTPDU as u64, VariableRecordTypes::NSSTOwnshipControl as u64, VariableRecordTypes::Other as u64, VariableRecordTypes::MassOfTheVehicle as u64, VariableRecordTypes::ForceID3 as u64, VariableRecordTypes::EntityTypeKind as u64, VariableRecordTypes::EntityTypeDomain as u64, VariableRecordTypes::EntityTypeCountry as u64, VariableRecordTypes::EntityTypeCategory as u64, VariableRecordTypes::EntityTypeSubCategory as u64, VariableRecordTypes::EntityTypeSpecific as u64, VariableRecordTypes::EntityTypeExtra as u64, VariableRecordTypes::AlternativeEntityTypeKind as u64, VariableRecordTypes::AlternativeEntityTypeDomain as u64, VariableRecordTypes::AlternativeEntityTypeCountry as u64, VariableRecordTypes::AlternativeEntityTypeCategory as u64, VariableRecordTypes::AlternativeEntityTypeSubCategory as u64, VariableRecordTypes::AlternativeEntityTypeSpecific as u64, VariableRecordTypes::AlternativeEntityTypeExtra as u64, VariableRecordTypes::EntityLocationX as u64, VariableRecordTypes::EntityLocationY as u64, VariableRecordTypes::EntityLocationZ as u64, VariableRecordTypes::EntityLinearVelocityX as u64, VariableRecordTypes::EntityLinearVelocityY as u64, VariableRecordTypes::EntityLinearVelocityZ as u64, VariableRecordTypes::EntityOrientationPsi as u64, VariableRecordTypes::EntityOrientationTheta as u64, VariableRecordTypes::EntityOrientationPhi as u64, VariableRecordTypes::DeadReckoningAlgorithm2 as u64, VariableRecordTypes::DeadReckoningLinearAccelerationX as u64, VariableRecordTypes::DeadReckoningLinearAccelerationY as u64, VariableRecordTypes::DeadReckoningLinearAccelerationZ as u64, VariableRecordTypes::DeadReckoningAngularVelocityX as u64, VariableRecordTypes::DeadReckoningAngularVelocityY as u64, VariableRecordTypes::DeadReckoningAngularVelocityZ as u64, VariableRecordTypes::EntityAppearance as u64, VariableRecordTypes::EntityMarkingCharacterSet as u64, VariableRecordTypes::EntityMarking11Bytes as u64, VariableRecordTypes::Capability as u64, VariableRecordTypes::NumberArticulationParameters as u64, VariableRecordTypes::ArticulationParameterID as u64, VariableRecordTypes::ArticulationParameterType2 as u64, VariableRecordTypes::ArticulationParameterValue2 as u64, VariableRecordTypes::TypeOfStores as u64, VariableRecordTypes::QuantityOfStores as u64, VariableRecordTypes::FuelQuantity as u64, VariableRecordTypes::RadarSystemStatus as u64, VariableRecordTypes::RadioCommunicationSystemStatus as u64, VariableRecordTypes::DefaultTimeForRadioTransmissionForStationaryTransmitters as u64, VariableRecordTypes::DefaultTimeForRadioTransmissionForMovingTransmitters as u64, VariableRecordTypes::BodyPartDamagedRatio as u64, VariableRecordTypes::NameOfTheTerrainDatabaseFile as u64, VariableRecordTypes::NameOfLocalFile as u64, VariableRecordTypes::AimpointBearing as u64, VariableRecordTypes::AimpointElevation as u64, VariableRecordTypes::AimpointRange as u64, VariableRecordTypes::AirSpeed as u64, VariableRecordTypes::Altitude as u64, VariableRecordTypes::ApplicationStatus as u64, VariableRecordTypes::AutoIff as u64, VariableRecordTypes::BeaconDelay as u64, VariableRecordTypes::BingoFuelSetting as u64, VariableRecordTypes::CloudBottom as u64, VariableRecordTypes::CloudTop as u64, VariableRecordTypes::Direction as u64, VariableRecordTypes::EndAction as u64, VariableRecordTypes::Frequency as u64, VariableRecordTypes::Freeze as u64, VariableRecordTypes::Heading as u64, VariableRecordTypes::Identification2 as u64, VariableRecordTypes::InitialPointData as u64, VariableRecordTypes::Latitude2 as u64, VariableRecordTypes::Lights2 as u64, VariableRecordTypes::Linear as u64, VariableRecordTypes::Longitude2 as u64, VariableRecordTypes::LowAltitude as u64, VariableRecordTypes::MfdFormats as u64, VariableRecordTypes::Nctr as u64, VariableRecordTypes::NumberProjectiles as u64, VariableRecordTypes::OperationCode as u64, VariableRecordTypes::Pitch as u64, VariableRecordTypes::Profiles as u64, VariableRecordTypes::Quantity3 as u64, VariableRecordTypes::RadarModes as u64, VariableRecordTypes::RadarSearchVolume as u64, VariableRecordTypes::Roll as u64, VariableRecordTypes::Rotation as u64, VariableRecordTypes::ScaleFactorX as u64, VariableRecordTypes::ScaleFactorY as u64, VariableRecordTypes::Shields2 as u64, VariableRecordTypes::Steerpoint as u64, VariableRecordTypes::Spare1 as u64, VariableRecordTypes::Spare2 as u64, VariableRecordTypes::Team as u64, VariableRecordTypes::Text as u64, VariableRecordTypes::TimeOfDay as u64, VariableRecordTypes::TrailFlag as u64, VariableRecordTypes::TrailSize as u64, VariableRecordTypes::TypeOfProjectile as u64, VariableRecordTypes::TypeOfTarget as u64, VariableRecordTypes::TypeOfThreat as u64, VariableRecordTypes::UhfFrequency as u64, VariableRecordTypes::UtmAltitude as u64, VariableRecordTypes::UtmLatitude as u64, VariableRecordTypes::UtmLongitude as u64, VariableRecordTypes::VhfFrequency as u64, VariableRecordTypes::VisibilityRange as u64, VariableRecordTypes::VoidAaaHit as u64, VariableRecordTypes::VoidCollision as u64, VariableRecordTypes::VoidEarthHit as u64, VariableRecordTypes::VoidFriendly as u64, VariableRecordTypes::VoidGunHit as u64, VariableRecordTypes::VoidRocketHit as u64, VariableRecordTypes::VoidSamHit as u64, VariableRecordTypes::WeaponData as u64, VariableRecordTypes::WeaponType as u64, VariableRecordTypes::Weather2 as u64, VariableRecordTypes::WindDirection2 as u64, VariableRecordTypes::WindSpeed as u64, VariableRecordTypes::WingStation as u64, VariableRecordTypes::Yaw as u64, VariableRecordTypes::MemoryOffset as u64, VariableRecordTypes::MemoryData as u64, VariableRecordTypes::VASI as u64, VariableRecordTypes::Beacon as u64, VariableRecordTypes::Strobe as u64, VariableRecordTypes::Culture as u64, VariableRecordTypes::Approach as u64, VariableRecordTypes::RunwayEnd as u64, VariableRecordTypes::Obstruction as u64, VariableRecordTypes::RunwayEdge as u64, VariableRecordTypes::RampTaxiway as u64, VariableRecordTypes::LaserBombCode as u64, VariableRecordTypes::RackType as u64, VariableRecordTypes::HUD as u64, VariableRecordTypes::RoleFileName as u64, VariableRecordTypes::PilotName as u64, VariableRecordTypes::PilotDesignation as u64, VariableRecordTypes::ModelType as u64, VariableRecordTypes::DISType as u64, VariableRecordTypes::Class as u64, VariableRecordTypes::Channel as u64, VariableRecordTypes::EntityType2 as u64, VariableRecordTypes::AlternativeEntityType2 as u64, VariableRecordTypes::EntityLocation as u64, VariableRecordTypes::EntityLinearVelocity as u64, VariableRecordTypes::EntityOrientation as u64, VariableRecordTypes::DeadReckoning as u64, VariableRecordTypes::FailureSymptom as u64, VariableRecordTypes::MaxFuel as u64, VariableRecordTypes::RefuelingBoomConnect as u64, VariableRecordTypes::AltitudeAGL as u64, VariableRecordTypes::CalibratedAirspeed as u64, VariableRecordTypes::TACANChannel1 as u64, VariableRecordTypes::TACANBand1 as u64, VariableRecordTypes::TACANMode1 as u64, VariableRecordTypes::FuelFlowRate as u64, VariableRecordTypes::FuelTemperature as u64, VariableRecordTypes::FuelPressure as u64, VariableRecordTypes::SKESlot as u64, VariableRecordTypes::SKELead as u64, VariableRecordTypes::SKEFrequency as u64, VariableRecordTypes::FCICmd as u64, VariableRecordTypes::FCINum as u64, VariableRecordTypes::SKEBitField as u64, VariableRecordTypes::FormationPosition as u64, VariableRecordTypes::FormationNumber as u64, VariableRecordTypes::FFSModeActive as u64, VariableRecordTypes::FFSRole as u64, VariableRecordTypes::FFSVCAS as u64, VariableRecordTypes::FFSBitField as u64, VariableRecordTypes::FFSCallSign as u64, VariableRecordTypes::FFSGuidanceData as u64, VariableRecordTypes::FFSTextData as u64, VariableRecordTypes::FFSAirdropRequestData as u64, VariableRecordTypes::FFSAirdropData as u64, VariableRecordTypes::HorizontalCircularErrorProbable as u64, VariableRecordTypes::HorizontalPositionError as u64, VariableRecordTypes::VerticalPositionError as u64, VariableRecordTypes::HorizontalVelocityError as u64, VariableRecordTypes::VerticalVelocityError as u64, VariableRecordTypes::_4thLowestJammertoSignalRatioforP1 as u64, VariableRecordTypes::_4thLowestJammertoSignalRatioforP2 as u64, VariableRecordTypes::GPSFigureofMerit as u64, VariableRecordTypes::WeaponTransferGPSState as u64, VariableRecordTypes::WeaponTransferHorizontalPositionError as u64, VariableRecordTypes::WeaponTransferVerticalPositionError1 as u64, VariableRecordTypes::WeaponTransferVerticalPositionError2 as u64, VariableRecordTypes::WeaponTransferHorizontalVelocityError as u64, VariableRecordTypes::TimeTransferError as u64, VariableRecordTypes::AgeofEphemeris as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestDISTypeEnumeration as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointX as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointY as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointZ as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestMaximumAltitude as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestFlightPath as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointX as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointY as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointZ as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestElapsedFlightTime as u64, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchTime as u64, VariableRecordTypes::TimeError as u64, VariableRecordTypes::Link16CommandVariety1 as u64, VariableRecordTypes::Push as u64, VariableRecordTypes::Rolex as u64, VariableRecordTypes::TerminateIntercept as u64, VariableRecordTypes::HealDamage as u64, VariableRecordTypes::Destroy as u64, VariableRecordTypes::TransferControlManagement as u64, VariableRecordTypes::Link16ControlsPPLIEnable as u64, VariableRecordTypes::Link16ControlsCommandControlEnable as u64, VariableRecordTypes::Link16ReferencePointMessageInitiation as u64, VariableRecordTypes::AssignExternalEntityLink16TrackNumber as u64, VariableRecordTypes::Link16IntelligenceInfo as u64, VariableRecordTypes::Link16TrackManagement as u64, VariableRecordTypes::Link16ControlsCESGlobalPPLIPublish as u64, VariableRecordTypes::Link16ControlsCESGlobalSurveillancePublish as u64, VariableRecordTypes::RequestGlobalLink16Configuration as u64, VariableRecordTypes::Link16ControlsSurveillanceEnable as u64, VariableRecordTypes::Link16Pointer as u64, VariableRecordTypes::Link16Vector as u64, VariableRecordTypes::Link16ControlUnitChange as u64, VariableRecordTypes::Link16Text as u64, VariableRecordTypes::RequestLink16Objects as u64, VariableRecordTypes::Link16RefObjectNameList as u64, VariableRecordTypes::TotalNumberofPDUsinLink16RefObjectsResponse as u64, VariableRecordTypes::PDUNumberinLink16RefObjectsResponse as u64, VariableRecordTypes::TotalNumberofLink16RefObjects as u64, VariableRecordTypes::Link16ControlsF2FAEnable as u64, VariableRecordTypes::Link16ControlsF2FBEnable as u64, VariableRecordTypes::STNofFormationLeader as u64, VariableRecordTypes::FormationName as u64, VariableRecordTypes::FormationRole as u64, VariableRecordTypes::SurveillanceContributorSensorBasedDetection as u64, VariableRecordTypes::F2FANPG as u64, VariableRecordTypes::Link16ControlsF2FANet as u64, VariableRecordTypes::F2FBNPG as u64, VariableRecordTypes::Link16ControlsF2FBNet as u64, VariableRecordTypes::SurveillanceEnabledNPB as u64, VariableRecordTypes::SurveillanceEnabledNet as u64, VariableRecordTypes::ControlUnitEnabled as u64, VariableRecordTypes::ControlUnitEnabledNPG as u64, VariableRecordTypes::ControlUnitEnabledNet as u64, VariableRecordTypes::VoiceFrequency as u64, VariableRecordTypes::Link16JTIDSVoiceCallsign as u64, VariableRecordTypes::EntityIDofControlUnit as u64, VariableRecordTypes::STNofControlUnit as u64, VariableRecordTypes::NTRParticipationLevel as u64, VariableRecordTypes::Link16ControlsCESGlobalPPLISubscribe as u64, VariableRecordTypes::Link16ControlsCESGlobalSurveillanceSubscribe as u64, VariableRecordTypes::NTRinMission as u64, VariableRecordTypes::NTRMarking as u64, VariableRecordTypes::NTRReceiptCompliance as u64, VariableRecordTypes::FormationF2FNPG as u64, VariableRecordTypes::FormationF2FChannel as u64, VariableRecordTypes::JLVCLogReport as u64, VariableRecordTypes::JLVCSupplyAdjust as u64, VariableRecordTypes::JLVCEntityControl as u64, VariableRecordTypes::JLVCHealthUpdate as u64, VariableRecordTypes::JLVCRepairComplete as u64, VariableRecordTypes::JLVCUnitActivation as u64, VariableRecordTypes::JLVCBattleDamageRepair as u64, VariableRecordTypes::JLVCMinefield as u64, VariableRecordTypes::JLVCWire as u64, VariableRecordTypes::JLVCAbatis as u64, VariableRecordTypes::JLVCCrater as u64, VariableRecordTypes::JLVCDitch as u64, VariableRecordTypes::JLVCLanes as u64, VariableRecordTypes::JLVCIED as u64, VariableRecordTypes::JLVCRubble as u64, VariableRecordTypes::JLVCSubmergedBarrier as u64, VariableRecordTypes::JLVCFloatingBarrier as u64, VariableRecordTypes::JLVCFoxhole as u64, VariableRecordTypes::JLVCVehicleHole as u64, VariableRecordTypes::JLVCVehicleFortification as u64, VariableRecordTypes::JLVCSandbag as u64, VariableRecordTypes::JLVCCheckpoint as u64, VariableRecordTypes::JLVCContamCloud2D as u64, VariableRecordTypes::JLVCPopulationEffect as u64, VariableRecordTypes::JLVCMine as u64, VariableRecordTypes::JLVCSeaMinefield as u64, VariableRecordTypes::Munition as u64, VariableRecordTypes::EngineFuel as u64, VariableRecordTypes::StorageFuel as u64, VariableRecordTypes::NotUsed as u64, VariableRecordTypes::Expendable as u64, VariableRecordTypes::TotalRecordSets as u64, VariableRecordTypes::LaunchedMunition as u64, VariableRecordTypes::Association as u64, VariableRecordTypes::Sensor as u64, VariableRecordTypes::MunitionReload as u64, VariableRecordTypes::EngineFuelReload as u64, VariableRecordTypes::StorageFuelReload as u64, VariableRecordTypes::ExpendableReload as u64, VariableRecordTypes::IFFChangeControlMode1Code as u64, VariableRecordTypes::IFFChangeControlMode2Code as u64, VariableRecordTypes::IFFChangeControlMode3Code as u64, VariableRecordTypes::IFFChangeControlMode4Code as u64, VariableRecordTypes::IFFChangeControlMode5Code as u64, VariableRecordTypes::IFFChangeControlMode6Code as u64, VariableRecordTypes::Link16Data as u64, VariableRecordTypes::ARMAlert as u64, VariableRecordTypes::IFFChangeControlModeOnOff as u64, VariableRecordTypes::WeaponStatusData as u64, VariableRecordTypes::ExpendableStatusData as u64, VariableRecordTypes::TacticStatusData as u64, VariableRecordTypes::EmitterSensorData as u64, VariableRecordTypes::IOSControlData as u64, VariableRecordTypes::StaticStatusData as u64, VariableRecordTypes::RequestInactiveEntities as u64, VariableRecordTypes::InactiveEntityQuantity as u64, VariableRecordTypes::InactiveEntityID as u64, VariableRecordTypes::InactiveEntityType as u64, VariableRecordTypes::ActivationTriggerType as u64, VariableRecordTypes::ActivationTriggerValue as u64, VariableRecordTypes::AirtoAirMissileQty as u64, VariableRecordTypes::AIM7MissileQty as u64, VariableRecordTypes::AIM9MissileQty as u64, VariableRecordTypes::AIM120MissileQty as u64, VariableRecordTypes::AirtoGroundMissileQty as u64, VariableRecordTypes::SurfacetoAirMissileQty as u64, VariableRecordTypes::BulletQty1 as u64, VariableRecordTypes::ChaffQty as u64, VariableRecordTypes::FlareQty as u64, VariableRecordTypes::FuelLevel as u64, VariableRecordTypes::RouteType as u64, VariableRecordTypes::ThreatMode as u64, VariableRecordTypes::TargetOccluded as u64, VariableRecordTypes::TerrainHeight as u64, VariableRecordTypes::EntityStatus as u64, VariableRecordTypes::MarshalStatus as u64, VariableRecordTypes::PowerPlantStatus as u64, VariableRecordTypes::NavLightStatus as u64, VariableRecordTypes::InteriorLightStatus as u64, VariableRecordTypes::LandingLightStatus as u64, VariableRecordTypes::FormationLightStatus as u64, VariableRecordTypes::AntiCollisionLightStatus as u64, VariableRecordTypes::NavFormationFlashRate as u64, VariableRecordTypes::AntiColOnDuration as u64, VariableRecordTypes::AntiColOffDuration as u64, VariableRecordTypes::InterceptStatus as u64, VariableRecordTypes::LifeFormSignalingDeviceType as u64, VariableRecordTypes::LifeFormMovementType as u64, VariableRecordTypes::LifeFormInVehicle as u64, VariableRecordTypes::MobilityKill2 as u64, VariableRecordTypes::FirepowerKill as u64, VariableRecordTypes::TankerEnabledDisabled as u64, VariableRecordTypes::ThreatStatusTacticOKtoShootDownWeapons as u64, VariableRecordTypes::TACANChannel2 as u64, VariableRecordTypes::TACANBand2 as u64, VariableRecordTypes::TACANMode2 as u64, VariableRecordTypes::RWRStatus as u64, VariableRecordTypes::UHFRadioFrequency as u64, VariableRecordTypes::EmitJammingStatus as u64, VariableRecordTypes::EmitJammingType as u64, VariableRecordTypes::ReceiveJammingStatus as u64, VariableRecordTypes::RADARMode as u64, VariableRecordTypes::AvailableRADARModes as u64, VariableRecordTypes::JammerPodEnumeration as u64, VariableRecordTypes::JammerPodBehavior as u64, VariableRecordTypes::JammerPodPrograms as u64, VariableRecordTypes::JammerPodReceiverSensitivity as u64, VariableRecordTypes::JammerPodReceiverFrequencyMinimum as u64, VariableRecordTypes::JammerPodReceiverFrequencyMaximum as u64, VariableRecordTypes::JammerPodPower as u64, VariableRecordTypes::JammerPodVariability as u64, VariableRecordTypes::JammerPodNumberofFalseTargets as u64, VariableRecordTypes::JammerPodJammerKnob as u64, VariableRecordTypes::JammerPodMissileJamming as u64, VariableRecordTypes::EmitterOverride2 as u64, VariableRecordTypes::JammerOverride as u64, VariableRecordTypes::DisengageReengage2 as u64, VariableRecordTypes::HeadingOverride as u64, VariableRecordTypes::AltitudeOverride as u64, VariableRecordTypes::SpeedOverride as u64, VariableRecordTypes::VerboseOverride as u64, VariableRecordTypes::OcclusionOverride as u64, VariableRecordTypes::CommitRange as u64, VariableRecordTypes::CurrentScenarioIFFMode4ACodeforThisThreatsAffiliation as u64, VariableRecordTypes::CurrentScenarioIFFMode4BCodeforThisThreatsAffiliation as u64, VariableRecordTypes::OktoEngageWaypointNumber as u64, VariableRecordTypes::MaxSpeedatSeaLevel as u64, VariableRecordTypes::MaxSpeed as u64, VariableRecordTypes::CurrentWaypointNumber as u64, VariableRecordTypes::RouteInformation as u64, VariableRecordTypes::ThreatStatusStaticMultiTargetTrack as u64, VariableRecordTypes::AirAirIRMissileQty as u64, VariableRecordTypes::AirAirRadarMissileQty as u64, VariableRecordTypes::AirGroundIRMissileQty as u64, VariableRecordTypes::AirGroundRadarMissileQty as u64, VariableRecordTypes::AirGroundAntiRadiationMissileQty as u64, VariableRecordTypes::AirGroundBombQty as u64, VariableRecordTypes::AirGroundRocketQty as u64, VariableRecordTypes::SurfaceAirIRMissileQty as u64, VariableRecordTypes::SurfaceAirRadarMissileQty as u64, VariableRecordTypes::BulletQty2 as u64, VariableRecordTypes::PPLIPublishEnabled as u64, VariableRecordTypes::SurveillancePublishEnabled as u64, VariableRecordTypes::NPG as u64, VariableRecordTypes::NPGChannel as u64, VariableRecordTypes::JTIDSTrackNumber as u64, VariableRecordTypes::Link16ControlsSurveillanceReportable as u64, VariableRecordTypes::Link16ControlsSurveillanceTrackQuality as u64, VariableRecordTypes::Link16ControlsTargetPositionQuality as u64, VariableRecordTypes::Link16ControlsQualityErrorType as u64, VariableRecordTypes::Link16ControlsAffiliationDeterminationRule as u64, VariableRecordTypes::Link16ControlsResetEntityAffiliation as u64, VariableRecordTypes::Link16ControlsResetAllAffiliation as u64, VariableRecordTypes::EndofMessages as u64, VariableRecordTypes::MalfunctionActivateDeactivateSet as u64, VariableRecordTypes::MalfunctionStatus as u64, VariableRecordTypes::RequestJTIDSTrackNumbers as u64, VariableRecordTypes::TrackNumbersvsEID as u64, VariableRecordTypes::TotalNumberofJTIDSTrackNumbers as u64, VariableRecordTypes::PDUNumberinJTIDSTrackNumberResponse as u64, VariableRecordTypes::TotalNumberofPDUsinJTIDSTrackNumberResponse as u64, VariableRecordTypes::AirtoAirRefuelerEntitiesRequest as u64, VariableRecordTypes::AirtoAirRefuelingCount as u64, VariableRecordTypes::AirToAirRefuelerEntity as u64, VariableRecordTypes::FormationLibraryRequest as u64, VariableRecordTypes::TotalNumberFormationLibraryPDUs1 as u64, VariableRecordTypes::PDUNumberinFormationLibraryResponse1 as u64, VariableRecordTypes::TotalNumberFormationLibraryItemsinPDU as u64, VariableRecordTypes::FormationLibraryVariable as u64, VariableRecordTypes::CreateRuntimeFormation as u64, VariableRecordTypes::FormationRequestHeader as u64, VariableRecordTypes::FormationPositionAbsolute as u64, VariableRecordTypes::FormationPositionRelative as u64, VariableRecordTypes::ExpendablesReload as u64, VariableRecordTypes::PositionFreeze as u64, VariableRecordTypes::ActivateOwnship as u64, VariableRecordTypes::Chocks as u64, VariableRecordTypes::WarmupCooldownOverride as u64, VariableRecordTypes::GroundPower as u64, VariableRecordTypes::ScrambleStart as u64, VariableRecordTypes::OwnshipasaThreat as u64, VariableRecordTypes::FuelExternal as u64, VariableRecordTypes::FuelInternal as u64, VariableRecordTypes::FuelTankTemp as u64, VariableRecordTypes::GrossWeight as u64, VariableRecordTypes::AngleOfAttack as u64, VariableRecordTypes::GLoad as u64, VariableRecordTypes::WeightOnWheels as u64, VariableRecordTypes::StoredEnergySystemReload as u64, VariableRecordTypes::KillOverride as u64, VariableRecordTypes::ExpendablesFreeze as u64, VariableRecordTypes::GPSSatellitesEnableDisable as u64, VariableRecordTypes::OwnshipMessageDisplay as u64, VariableRecordTypes::WeaponQuantityFreeze as u64, VariableRecordTypes::GlobalControlFreezeWeaponsQuantityOnAllOwnships as u64, VariableRecordTypes::GlobalControlFreezeFuelQuantityOnAllOwnships as u64, VariableRecordTypes::GlobalControlFreezeKillOverrideOnAllOwnships as u64, VariableRecordTypes::GlobalControlFreezeCrashOverrideOnAllOwnships as u64, VariableRecordTypes::OwnshipOFPBlockNumber as u64, VariableRecordTypes::WaypointInformationQuery as u64, VariableRecordTypes::WaypointInformation as u64, VariableRecordTypes::OwnshipSubsystemStatusData as u64, VariableRecordTypes::CockpitSwitchStatus as u64, VariableRecordTypes::IntegratedControlPanelMessages as u64, VariableRecordTypes::ThrottlePositions as u64, VariableRecordTypes::CurrentCriticalSwitchPosition as u64, VariableRecordTypes::CorrectCriticalSwitchPosition as u64, VariableRecordTypes::CurrentCriticalSwitchData as u64, VariableRecordTypes::CorrectCriticalSwitchData as u64, VariableRecordTypes::MissionInitialConditionsSet as u64, VariableRecordTypes::GlobalControlMalfunctionActiveonAllOwnships as u64, VariableRecordTypes::GlobalControlMalfunctionClearOnAllOwnships as u64, VariableRecordTypes::ValidatedCriticalSwitchReport as u64, VariableRecordTypes::SARMapPathname as u64, VariableRecordTypes::ValidatedCriticalSwitchOwnshipID as u64, VariableRecordTypes::LowerBoomEventReport as u64, VariableRecordTypes::RaiseBoomEventReport as u64, VariableRecordTypes::BreakawayEventReport as u64, VariableRecordTypes::CompleteEventReport as u64, VariableRecordTypes::AuxCommPanelFrequencyDisplay as u64, VariableRecordTypes::NetworkStationInformation as u64, VariableRecordTypes::GlobalControlSelectNetworkStation as u64, VariableRecordTypes::NetworkStationUnderGlobalControl as u64, VariableRecordTypes::GlobalControlStillControlling as u64, VariableRecordTypes::GlobalControlReleaseControlofNetworkStation as u64, VariableRecordTypes::GlobalControlFreezeWeaponQuantity as u64, VariableRecordTypes::GlobalControlFreezeFuelQuantity as u64, VariableRecordTypes::GlobalControlFreezeKillOverride as u64, VariableRecordTypes::GlobalControlFreezeCrashOverride as u64, VariableRecordTypes::GlobalControlMalfunctionActive as u64, VariableRecordTypes::GlobalControlMalfunctionClear as u64, VariableRecordTypes::GlobalControlStartDevices as u64, VariableRecordTypes::GlobalControlFreezeDevices as u64, VariableRecordTypes::GlobalControlJTIDSCommand as u64, VariableRecordTypes::NetworkStationICSetInformation as u64, VariableRecordTypes::GlobalControlResetICSet as u64, VariableRecordTypes::NumberofControllingUnits as u64, VariableRecordTypes::NetworkStationJTIDSControllingUnits as u64, VariableRecordTypes::NetworkStationJTIDSObjectiveTracks as u64, VariableRecordTypes::NumberofReferenceObjects as u64, VariableRecordTypes::NetworkStationJTIDSReferenceObjects as u64, VariableRecordTypes::NetworkedStationStillUnderControl as u64, VariableRecordTypes::GlobalControlDeleteThreatEntities as u64, VariableRecordTypes::NetworkStationOwnshipCallsigns as u64, VariableRecordTypes::GlobalControlRequestFormationLibraryData as u64, VariableRecordTypes::TotalNumberFormationLibraryPDUs2 as u64, VariableRecordTypes::PDUNumberinFormationLibraryResponse2 as u64, VariableRecordTypes::TotalNumberFormationLibraryItemsinPDUs as u64, VariableRecordTypes::NetworkStationFormationLibraryItem as u64, VariableRecordTypes::GlobalControlAddRelativeFormation as u64, VariableRecordTypes::NetworkStationTICFilename as u64, VariableRecordTypes::GlobalControlFreezeWarmupOverride as u64, VariableRecordTypes::GlobalControlReloadSES as u64, VariableRecordTypes::GlobalControlReloadWeapons as u64, VariableRecordTypes::GlobalControlReloadExpendables as u64, VariableRecordTypes::GlobalControlReloadFuel as u64, VariableRecordTypes::GlobalControlReloadFirebottle as u64, VariableRecordTypes::TestPattern as u64, VariableRecordTypes::AudioTest as u64, VariableRecordTypes::AudioTone as u64, VariableRecordTypes::CalibrateThrottles as u64, VariableRecordTypes::OperationalLimitsEventReport as u64, VariableRecordTypes::OperationalLimits as u64, VariableRecordTypes::EventMarkerMessage as u64, VariableRecordTypes::ReceiverAircraftAeroModelData as u64, VariableRecordTypes::TankerAircraftAeroModelData as u64, VariableRecordTypes::BoomAircraftAeroModelData as u64, VariableRecordTypes::AccesstoImageGeneratorData1 as u64, VariableRecordTypes::AccesstoImageGeneratorData2 as u64, VariableRecordTypes::AccesstoImageGeneratorData3 as u64, VariableRecordTypes::AccesstoImageGeneratorData4 as u64, VariableRecordTypes::AccesstoImageGeneratorData5 as u64, VariableRecordTypes::AccesstoImageGeneratorData6 as u64, VariableRecordTypes::AccesstoImageGeneratorData7 as u64, VariableRecordTypes::AccesstoImageGeneratorData8 as u64, VariableRecordTypes::AccesstoImageGeneratorData9 as u64, VariableRecordTypes::AccesstoImageGeneratorData10 as u64, VariableRecordTypes::AccesstoImageGeneratorData11 as u64, VariableRecordTypes::AccesstoImageGeneratorData12 as u64, VariableRecordTypes::AccesstoImageGeneratorData13 as u64, VariableRecordTypes::AccesstoImageGeneratorData14 as u64, VariableRecordTypes::AccesstoImageGeneratorData15 as u64, VariableRecordTypes::AccesstoImageGeneratorData16 as u64, VariableRecordTypes::HostLoadNumber as u64, VariableRecordTypes::ExtendedFireEventReports as u64, VariableRecordTypes::BattleDamageAssessmentEventReport as u64, VariableRecordTypes::ExtendedFireEventLauncher as u64, VariableRecordTypes::ExtendedFireEventMissile as u64, VariableRecordTypes::ExtendedFireEventMRMWeapon as u64, VariableRecordTypes::ExtendedFireEventGunFireControl as u64, VariableRecordTypes::ExtendedFireEventBomb as u64, VariableRecordTypes::ExtendedFireEventExpendable as u64, VariableRecordTypes::BattleDamageAssessment as u64, VariableRecordTypes::ExtendedFirePickleEvent as u64, VariableRecordTypes::RadarTrackReport as u64, VariableRecordTypes::JammerReport as u64, VariableRecordTypes::JammerFalseTargetsReport as u64, VariableRecordTypes::DetectEventReport as u64, VariableRecordTypes::MALDBeamReport as u64, VariableRecordTypes::TransmitterRadiationVolume as u64, VariableRecordTypes::TransmitterRadiationVolumev2 as u64, VariableRecordTypes::PhysicalNetworkDefinition as u64, VariableRecordTypes::NetworkChannelDefinition as u64, VariableRecordTypes::LogicalNetworkDefinition as u64, VariableRecordTypes::LogicalNetworkEntityDefinition as u64, VariableRecordTypes::PhysicalNetworkEntityDefinition as u64, VariableRecordTypes::C2Message as u64, VariableRecordTypes::CandidateObject as u64, VariableRecordTypes::SetofCandidateObjects as u64, VariableRecordTypes::BoundedRegion as u64, VariableRecordTypes::AngularRegion as u64, VariableRecordTypes::RoEObject as u64, VariableRecordTypes::TrackObject as u64, VariableRecordTypes::SetOfTrackObjects as u64, VariableRecordTypes::LogicalEntityDefinition as u64, VariableRecordTypes::LogicalEntityRelationshipDefinition as u64, VariableRecordTypes::IntentBasedEWMessage as u64], decode: |mut b| { let v = VariableRecordTypes::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <VariableRecordTypes as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_VARIABLERECORDTYPES[i], b), |mut b| <VariableRecordTypes as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_VARIABLERECORDTYPES[i]))), pairs: || crate::core::pairs(&[VariableRecordTypes::EntityIDList, VariableRecordTypes::DDCPJoinTransactionJoinRequestMessage, VariableRecordTypes::DDCPSetPlaybackWindowTransactionSetPlaybackWindowRequestMessage, VariableRecordTypes::DDCPLoadMissionRecordingTransactionLoadMissionRecordingRequestMessage, VariableRecordTypes::DDCPCueTransactionCueRequestMessage, VariableRecordTypes::DDCPPlayTransactionPlayRequestMessage, VariableRecordTypes::DDCPStopTransactionStopRequestMessage, VariableRecordTypes::DDCPPauseTransactionPauseRequestMessage, VariableRecordTypes::DDCPEndTransactionEndRequestMessage, VariableRecordTypes::DDCPJoinResponseMessage, VariableRecordTypes::DDCPRequestReceiptMessage, VariableRecordTypes::DDCPPlaybackWindowConfirmedMessage, VariableRecordTypes::DDCPMissionRecordingLoadedMessage, VariableRecordTypes::DDCPCueConfirmedMessage, VariableRecordTypes::DDCPTimetoCompleteMessage, VariableRecordTypes::DDCPPlayCommencedMessage, VariableRecordTypes::DDCPStopConfirmedMessage, VariableRecordTypes::DDCPPauseConfirmedMessage, VariableRecordTypes::DDCPEndResponseMessage, VariableRecordTypes::DDCPMasterAnnounceMessage, VariableRecordTypes::DDCPDeviceAnnounceMessage, VariableRecordTypes::DDCPDeviceExitMessage, VariableRecordTypes::DDCPDeviceHeartbeatMessage, VariableRecordTypes::DDCPMasterTimeSyncMessage, VariableRecordTypes::DDCPErrorMessage, VariableRecordTypes::DDCPMasterStopSyncMessage, VariableRecordTypes::DDCPMasterTransitionMessage, VariableRecordTypes::MissionTime, VariableRecordTypes::HighFidelityHAVEQUICKSATURNRadio, VariableRecordTypes::BlankingSectorattributerecord, VariableRecordTypes::AngleDeceptionattributerecord, VariableRecordTypes::FalseTargetsattributerecord, VariableRecordTypes::DEPrecisionAimpointrecord, VariableRecordTypes::DEAreaAimpointrecord, VariableRecordTypes::DirectedEnergyDamageDescriptionrecord, VariableRecordTypes::CryptoControl, VariableRecordTypes::Mode5STransponderLocation, VariableRecordTypes::Mode5STransponderLocationError, VariableRecordTypes::SquitterAirbornePositionReport, VariableRecordTypes::SquitterAirborneVelocityReport, VariableRecordTypes::SquitterSurfacePositionReport, VariableRecordTypes::SquitterIdentificationReport, VariableRecordTypes::GICB, VariableRecordTypes::SquitterEventDrivenReport, VariableRecordTypes::AntennaLocation, VariableRecordTypes::BasicInteractive, VariableRecordTypes::InteractiveMode4Reply, VariableRecordTypes::InteractiveMode5Reply, VariableRecordTypes::InteractiveBasicMode5, VariableRecordTypes::InteractiveBasicModeS, VariableRecordTypes::IOEffect, VariableRecordTypes::IOCommunicationsNode, VariableRecordTypes::Identification1, VariableRecordTypes::TrainerInitialConditionsFilename, VariableRecordTypes::Increment3_1MissionDataLoadName, VariableRecordTypes::Increment2MissionDataLoadName, VariableRecordTypes::SetMarkpointCommand, VariableRecordTypes::MarkpointID, VariableRecordTypes::ReactionLevel, VariableRecordTypes::WeaponReload, VariableRecordTypes::CESEntitySetClearStatus, VariableRecordTypes::ActivateEntity, VariableRecordTypes::DisengageReengage1, VariableRecordTypes::FuelFreeze, VariableRecordTypes::FireLaunchDispense, VariableRecordTypes::TargetAssignment, VariableRecordTypes::CICEnable, VariableRecordTypes::ShootInhibit, VariableRecordTypes::Posture, VariableRecordTypes::JammerState, VariableRecordTypes::JammerType, VariableRecordTypes::DynamicTargeting, VariableRecordTypes::ManualJammingOnOverride, VariableRecordTypes::SOJAxis, VariableRecordTypes::EmitterOverride1, VariableRecordTypes::Shields1, VariableRecordTypes::CrashOverride, VariableRecordTypes::StopBuzzer, VariableRecordTypes::TargetLasingOnOff, VariableRecordTypes::TargetLasingLaserCode, VariableRecordTypes::PowerPlant, VariableRecordTypes::TacticalLightingOnOffControlLightControl, VariableRecordTypes::TacticalLightingBlinkerControlBlinkerValue, VariableRecordTypes::TacticalLightingOnOffControlLightControlType, VariableRecordTypes::ParkVehicle, VariableRecordTypes::SignalingOnOff, VariableRecordTypes::SignalingDevice, VariableRecordTypes::OwnshipID, VariableRecordTypes::StateChange, VariableRecordTypes::EntityType1, VariableRecordTypes::Concatenated, VariableRecordTypes::Kind, VariableRecordTypes::Domain, VariableRecordTypes::Country, VariableRecordTypes::Category, VariableRecordTypes::Subcategory, VariableRecordTypes::Specific, VariableRecordTypes::Extra, VariableRecordTypes::ForceID1, VariableRecordTypes::ForceID2, VariableRecordTypes::Description, VariableRecordTypes::TankerBoomControl, VariableRecordTypes::AirportLights, VariableRecordTypes::WeatherPost, VariableRecordTypes::LocalizerandGlideSlope, VariableRecordTypes::TACANNavAids, VariableRecordTypes::AlternativeEntityType1, VariableRecordTypes::Kind2, VariableRecordTypes::Domain2, VariableRecordTypes::Country2, VariableRecordTypes::Category2, VariableRecordTypes::Subcategory2, VariableRecordTypes::Specific2, VariableRecordTypes::Extra2, VariableRecordTypes::Description2, VariableRecordTypes::EntityMarking, VariableRecordTypes::EntityMarkingCharacters, VariableRecordTypes::CrewID, VariableRecordTypes::TaskOrganization, VariableRecordTypes::RegimentName, VariableRecordTypes::BattalionName, VariableRecordTypes::CompanyName, VariableRecordTypes::PlatoonName, VariableRecordTypes::SquadName, VariableRecordTypes::TeamName, VariableRecordTypes::BumperNumber, VariableRecordTypes::VehicleNumber, VariableRecordTypes::UnitNumber, VariableRecordTypes::DISIdentity, VariableRecordTypes::DISSiteID, VariableRecordTypes::DISHostID, VariableRecordTypes::DISEntityID, VariableRecordTypes::MountIntent, VariableRecordTypes::TetherUnthetherCommandID, VariableRecordTypes::TeleportEntityDataRecord, VariableRecordTypes::DISAggregateID, VariableRecordTypes::OwnershipStatus, VariableRecordTypes::Reconstitute, VariableRecordTypes::Loads, VariableRecordTypes::CrewMembers, VariableRecordTypes::CrewMemberID, VariableRecordTypes::Health, VariableRecordTypes::JobAssignment, VariableRecordTypes::Fuel, VariableRecordTypes::Quantity1, VariableRecordTypes::Quantity2, VariableRecordTypes::Ammunition, VariableRecordTypes::_120mmHEATquantity, VariableRecordTypes::_120mmSABOTquantity, VariableRecordTypes::_12_7mmM8quantity, VariableRecordTypes::_12_7mmM20quantity, VariableRecordTypes::_7_62mmM62quantity, VariableRecordTypes::M250UKL8A1quantity, VariableRecordTypes::M250UKL8A3quantity, VariableRecordTypes::_7_62mmM80quantity, VariableRecordTypes::_12_7mmquantity, VariableRecordTypes::_7_62mmquantity, VariableRecordTypes::Minesquantity, VariableRecordTypes::Type, VariableRecordTypes::Kind3, VariableRecordTypes::Domain3, VariableRecordTypes::Country3, VariableRecordTypes::Category3, VariableRecordTypes::Subcategory3, VariableRecordTypes::Extra3, VariableRecordTypes::Description3, VariableRecordTypes::Cargo, VariableRecordTypes::VehicleMass, VariableRecordTypes::SupplyQuantity, VariableRecordTypes::Armament, VariableRecordTypes::Status, VariableRecordTypes::Activateentity, VariableRecordTypes::SubscriptionState, VariableRecordTypes::Roundtriptimedelay, VariableRecordTypes::TADILJmessagecountLabel0, VariableRecordTypes::TADILJmessagecountLabel1, VariableRecordTypes::TADILJmessagecountLabel2, VariableRecordTypes::TADILJmessagecountLabel3, VariableRecordTypes::TADILJmessagecountLabel4, VariableRecordTypes::TADILJmessagecountLabel5, VariableRecordTypes::TADILJmessagecountLabel6, VariableRecordTypes::TADILJmessagecountLabel7, VariableRecordTypes::TADILJmessagecountLabel8, VariableRecordTypes::TADILJmessagecountLabel9, VariableRecordTypes::TADILJmessagecountLabel10, VariableRecordTypes::TADILJmessagecountLabel11, VariableRecordTypes::TADILJmessagecountLabel12, VariableRecordTypes::TADILJmessagecountLabel13, VariableRecordTypes::TADILJmessagecountLabel14, VariableRecordTypes::TADILJmessagecountLabel15, VariableRecordTypes::TADILJmessagecountLabel16, VariableRecordTypes::TADILJmessagecountLabel17, VariableRecordTypes::TADILJmessagecountLabel18, VariableRecordTypes::TADILJmessagecountLabel19, VariableRecordTypes::TADILJmessagecountLabel20, VariableRecordTypes::TADILJmessagecountLabel21, VariableRecordTypes::TADILJmessagecountLabel22, VariableRecordTypes::TADILJmessagecountLabel23, VariableRecordTypes::TADILJmessagecountLabel24, VariableRecordTypes::TADILJmessagecountLabel25, VariableRecordTypes::TADILJmessagecountLabel26, VariableRecordTypes::TADILJmessagecountLabel27, VariableRecordTypes::TADILJmessagecountLabel28, VariableRecordTypes::TADILJmessagecountLabel29, VariableRecordTypes::TADILJmessagecountLabel30, VariableRecordTypes::TADILJmessagecountLabel31, VariableRecordTypes::Position, VariableRecordTypes::Routetype, VariableRecordTypes::MilGrid10, VariableRecordTypes::GeocentricCoordinates, VariableRecordTypes::X, VariableRecordTypes::Y, VariableRecordTypes::Z, VariableRecordTypes::Latitude1, VariableRecordTypes::Longitude1, VariableRecordTypes::LineofSight, VariableRecordTypes::X1, VariableRecordTypes::Y1, VariableRecordTypes::Z1, VariableRecordTypes::Altitude2, VariableRecordTypes::DestinationLatitude, VariableRecordTypes::DestinationLongitude, VariableRecordTypes::DestinationAltitude, VariableRecordTypes::Orientation, VariableRecordTypes::HullHeadingAngle, VariableRecordTypes::HullPitchAngle, VariableRecordTypes::RollAngle, VariableRecordTypes::X2, VariableRecordTypes::Y2, VariableRecordTypes::Z2, VariableRecordTypes::Appearance, VariableRecordTypes::AmbientLighting, VariableRecordTypes::Lights1, VariableRecordTypes::PaintScheme, VariableRecordTypes::Smoke, VariableRecordTypes::TrailingEffects, VariableRecordTypes::Flaming, VariableRecordTypes::Marking, VariableRecordTypes::MinePlowsAttached, VariableRecordTypes::MineRollersAttached, VariableRecordTypes::TankTurretAzimuth, VariableRecordTypes::FailuresandMalfunctions, VariableRecordTypes::Age, VariableRecordTypes::Kilometers, VariableRecordTypes::Damage, VariableRecordTypes::Cause, VariableRecordTypes::MobilityKill1, VariableRecordTypes::FirePowerKill, VariableRecordTypes::PersonnelCasualties, VariableRecordTypes::Velocity, VariableRecordTypes::Xvelocity, VariableRecordTypes::Yvelocity, VariableRecordTypes::Zvelocity, VariableRecordTypes::Speed1, VariableRecordTypes::Acceleration, VariableRecordTypes::Xacceleration, VariableRecordTypes::Yacceleration, VariableRecordTypes::Zacceleration, VariableRecordTypes::EngineStatus, VariableRecordTypes::PrimaryTargetLine, VariableRecordTypes::Exercise, VariableRecordTypes::ExerciseState, VariableRecordTypes::RestartRefresh, VariableRecordTypes::AFATDSFileName, VariableRecordTypes::TerrainDatabase, VariableRecordTypes::Missions, VariableRecordTypes::MissionID, VariableRecordTypes::MissionType, VariableRecordTypes::MissionRequestTimeStamp, VariableRecordTypes::ExerciseDescription, VariableRecordTypes::Name, VariableRecordTypes::Entities, VariableRecordTypes::Version, VariableRecordTypes::GuiseMode, VariableRecordTypes::SimulationApplicationActiveStatus, VariableRecordTypes::SimulationApplicationRoleRecord, VariableRecordTypes::SimulationApplicationState, VariableRecordTypes::VisualOutputMode, VariableRecordTypes::SimulationManagerRole, VariableRecordTypes::SimulationManagerSiteID, VariableRecordTypes::SimulationManagerApplicID, VariableRecordTypes::SimulationManagerEntityID, VariableRecordTypes::SimulationManagerActiveStatus, VariableRecordTypes::AfterActiveReviewRole, VariableRecordTypes::AfterActiveReviewSiteID, VariableRecordTypes::AfterActiveApplicID, VariableRecordTypes::AfterActiveReviewEntityID, VariableRecordTypes::AfterActiveReviewActiveStatus, VariableRecordTypes::ExerciseLoggerRole, VariableRecordTypes::ExerciseLoggerSiteID, VariableRecordTypes::ExerciseLoggerApplicID, VariableRecordTypes::ExerciseEntityID, VariableRecordTypes::ExerciseLoggerActiveStatus, VariableRecordTypes::SyntheticEnvironmentManagerRole, VariableRecordTypes::SyntheticEnvironmentManagerSiteID, VariableRecordTypes::SyntheticEnvironmentManagerApplicID, VariableRecordTypes::SyntheticEnvironmentManagerEntityID, VariableRecordTypes::SyntheticEnvironmentManagerActiveStatus, VariableRecordTypes::SIMNETDISTranslatorRole, VariableRecordTypes::SIMNETDISTranslatorSiteID, VariableRecordTypes::SIMNETDISTranslatorApplicID, VariableRecordTypes::SIMNETDISTranslatorEntityID, VariableRecordTypes::SIMNETDISTranslatorActiveStatus, VariableRecordTypes::ApplicationRate, VariableRecordTypes::ApplicationTime, VariableRecordTypes::ApplicationTimestep, VariableRecordTypes::FeedbackTime, VariableRecordTypes::SimulationRate, VariableRecordTypes::SimulationTime, VariableRecordTypes::SimulationTimestep, VariableRecordTypes::TimeInterval, VariableRecordTypes::TimeLatency, VariableRecordTypes::TimeScheme, VariableRecordTypes::ExerciseElapsedTime, VariableRecordTypes::ElapsedTime, VariableRecordTypes::Environment, VariableRecordTypes::ScenarioDate, VariableRecordTypes::TimeDateValid, VariableRecordTypes::ScenarioTime, VariableRecordTypes::SnowEnableDisable, VariableRecordTypes::WeatherAttributesRequest, VariableRecordTypes::METHeartbeatMessage, VariableRecordTypes::ContrailsEnable, VariableRecordTypes::ContrailAltitudes, VariableRecordTypes::Weather1, VariableRecordTypes::WeatherCondition, VariableRecordTypes::ThermalCondition, VariableRecordTypes::ThermalVisibility1, VariableRecordTypes::ThermalVisibility2, VariableRecordTypes::Time1, VariableRecordTypes::Time2, VariableRecordTypes::TimeofDayDiscrete, VariableRecordTypes::TimeofDayContinuous, VariableRecordTypes::TimeMode, VariableRecordTypes::TimeScene, VariableRecordTypes::CurrentHour, VariableRecordTypes::CurrentMinute, VariableRecordTypes::CurrentSecond, VariableRecordTypes::Azimuth1, VariableRecordTypes::MaximumElevation, VariableRecordTypes::TimeZone, VariableRecordTypes::TimeRate, VariableRecordTypes::TheNumberOfSimulationSecondsSinceTheStartOfTheExercise, VariableRecordTypes::TimeSunriseEnabled, VariableRecordTypes::SunriseHour, VariableRecordTypes::SunriseMinute, VariableRecordTypes::SunriseSecond, VariableRecordTypes::SunriseAzimuth, VariableRecordTypes::TimeSunsetEnabled, VariableRecordTypes::SunsetHour1, VariableRecordTypes::SunsetHour2, VariableRecordTypes::SunsetMinute, VariableRecordTypes::SunsetSecond, VariableRecordTypes::Date1, VariableRecordTypes::DateEuropean, VariableRecordTypes::DateUS, VariableRecordTypes::Month, VariableRecordTypes::Day, VariableRecordTypes::Year, VariableRecordTypes::Clouds, VariableRecordTypes::CloudLayerEnable, VariableRecordTypes::CloudLayerSelection, VariableRecordTypes::Visibility, VariableRecordTypes::BaseAltitude1, VariableRecordTypes::BaseAltitude2, VariableRecordTypes::Ceiling1, VariableRecordTypes::Ceiling2, VariableRecordTypes::Characteristics, VariableRecordTypes::ConcentrationLength, VariableRecordTypes::Transmittance, VariableRecordTypes::Radiance, VariableRecordTypes::Precipitation, VariableRecordTypes::Rain, VariableRecordTypes::Fog, VariableRecordTypes::Visibility1, VariableRecordTypes::Visibility2, VariableRecordTypes::Visibility3, VariableRecordTypes::Density1, VariableRecordTypes::Base, VariableRecordTypes::ViewLayerfromabove_, VariableRecordTypes::TransitionRange, VariableRecordTypes::Bottom1, VariableRecordTypes::Bottom2, VariableRecordTypes::Ceiling3, VariableRecordTypes::Ceiling4, VariableRecordTypes::HeavenlyBodies, VariableRecordTypes::Sun, VariableRecordTypes::SunVisible, VariableRecordTypes::Position1, VariableRecordTypes::SunPositionElevationDegrees, VariableRecordTypes::PositionAzimuth1, VariableRecordTypes::SunPositionAzimuthDegrees, VariableRecordTypes::PositionElevation1, VariableRecordTypes::PositionIntensity1, VariableRecordTypes::Moon, VariableRecordTypes::MoonVisible, VariableRecordTypes::Position2, VariableRecordTypes::PositionAzimuth2, VariableRecordTypes::MoonPositionAzimuthDegrees, VariableRecordTypes::PositionElevation2, VariableRecordTypes::MoonPositionElevationDegrees, VariableRecordTypes::PositionIntensity2, VariableRecordTypes::Horizon, VariableRecordTypes::HorizonAzimuth, VariableRecordTypes::HorizonElevation, VariableRecordTypes::HorizonHeading, VariableRecordTypes::HorizonIntensity, VariableRecordTypes::Humidity, VariableRecordTypes::Visibility4, VariableRecordTypes::Winds, VariableRecordTypes::Speed2, VariableRecordTypes::WindSpeedKnots, VariableRecordTypes::WindDirection1, VariableRecordTypes::WindDirectionDegrees, VariableRecordTypes::Rainsoak, VariableRecordTypes::TideSpeed, VariableRecordTypes::TideSpeedKnots, VariableRecordTypes::TideDirection, VariableRecordTypes::TideDirectionDegrees, VariableRecordTypes::Haze, VariableRecordTypes::Visibility5, VariableRecordTypes::Visibility6, VariableRecordTypes::Density2, VariableRecordTypes::Ceiling5, VariableRecordTypes::Ceiling6, VariableRecordTypes::ContaminantsandObscurants, VariableRecordTypes::ContaminantObscurantType, VariableRecordTypes::Persistence, VariableRecordTypes::ChemicalDosage, VariableRecordTypes::ChemicalAirConcentration, VariableRecordTypes::ChemicalGroundDeposition, VariableRecordTypes::ChemicalMaximumGroundDeposition, VariableRecordTypes::ChemicalDosageThreshold, VariableRecordTypes::BiologicalDosage, VariableRecordTypes::BiologicalAirConcentration, VariableRecordTypes::BiologicalDosageThreshold, VariableRecordTypes::BiologicalBinnedParticleCount, VariableRecordTypes::RadiologicalDosage, VariableRecordTypes::Communications, VariableRecordTypes::FireBottleReload, VariableRecordTypes::ChannelType1, VariableRecordTypes::ChannelType2, VariableRecordTypes::ChannelIdentification, VariableRecordTypes::AlphaIdentification, VariableRecordTypes::RadioIdentification, VariableRecordTypes::LandLineIdentification, VariableRecordTypes::IntercomIdentification, VariableRecordTypes::GroupNetworkChannelNumber, VariableRecordTypes::RadioCommunicationsStatus, VariableRecordTypes::BoomInterphone, VariableRecordTypes::StationaryRadioTransmittersDefaultTime, VariableRecordTypes::MovingRadioTransmittersDefaultTime, VariableRecordTypes::StationaryRadioSignalsDefaultTime, VariableRecordTypes::MovingRadioSignalDefaultTime, VariableRecordTypes::RadioInitializationTransecSecurityKey, VariableRecordTypes::RadioInitializationInternalNoiseLevel, VariableRecordTypes::RadioInitializationSquelchThreshold, VariableRecordTypes::RadioInitializationAntennaLocation, VariableRecordTypes::RadioInitializationAntennaPatternType, VariableRecordTypes::RadioInitializationAntennaPatternLength, VariableRecordTypes::RadioInitializationBeamDefinition, VariableRecordTypes::RadioInitializationTransmitHeartbeatTime, VariableRecordTypes::RadioInitializationTransmitDistanceThresholdVariableRecord, VariableRecordTypes::RadioChannelInitializationLockoutID, VariableRecordTypes::RadioChannelInitializationHopsetID, VariableRecordTypes::RadioChannelInitializationPresetFrequency, VariableRecordTypes::RadioChannelInitializationFrequencySyncTime, VariableRecordTypes::RadioChannelInitializationComsecKey, VariableRecordTypes::RadioChannelInitializationAlpha, VariableRecordTypes::AlgorithmParameters, VariableRecordTypes::DeadReckoningAlgorithm1, VariableRecordTypes::DRALocationThreshold, VariableRecordTypes::DRAOrientationThreshold, VariableRecordTypes::DRATimeThreshold, VariableRecordTypes::SimulationManagementParameters, VariableRecordTypes::CheckpointInterval, VariableRecordTypes::TransmitterTimeThreshold, VariableRecordTypes::ReceiverTimeThreshold, VariableRecordTypes::InteroperabilityMode, VariableRecordTypes::SIMNETDataCollection, VariableRecordTypes::EventID, VariableRecordTypes::SourceSiteID, VariableRecordTypes::SourceHostID, VariableRecordTypes::ArticulatedParts, VariableRecordTypes::PartID, VariableRecordTypes::Index, VariableRecordTypes::Position3, VariableRecordTypes::PositionRate, VariableRecordTypes::Extension, VariableRecordTypes::ExtensionRate, VariableRecordTypes::X3, VariableRecordTypes::Xrate, VariableRecordTypes::Y3, VariableRecordTypes::Yrate, VariableRecordTypes::Z3, VariableRecordTypes::Zrate, VariableRecordTypes::Azimuth2, VariableRecordTypes::AzimuthRate, VariableRecordTypes::Elevation, VariableRecordTypes::ElevationRate, VariableRecordTypes::Rotation2, VariableRecordTypes::RotationRate, VariableRecordTypes::DRAAngularXVelocity, VariableRecordTypes::DRAAngularYVelocity, VariableRecordTypes::DRAAngularZVelocity, VariableRecordTypes::AppearanceTrailingEffects, VariableRecordTypes::AppearanceHatch, VariableRecordTypes::AppearanceCharacterSet, VariableRecordTypes::CapabilityAmmunitionSupplier, VariableRecordTypes::CapabilityMiscellaneousSupplier, VariableRecordTypes::CapabilityRepairProvider, VariableRecordTypes::ArticulationParameter, VariableRecordTypes::ArticulationParameterType1, VariableRecordTypes::ArticulationParameterValue1, VariableRecordTypes::TimeofDayScene, VariableRecordTypes::LatitudeNorth, VariableRecordTypes::LongitudeEast, VariableRecordTypes::TacticalDriverStatus, VariableRecordTypes::SonarSystemStatus, VariableRecordTypes::Accomplishedaccept, VariableRecordTypes::Upperlatitude, VariableRecordTypes::LatitudeSouth, VariableRecordTypes::Westernlongitude, VariableRecordTypes::LongitudeWest, VariableRecordTypes::CDROMNumber, VariableRecordTypes::DTEDdiskID, VariableRecordTypes::Altitude3, VariableRecordTypes::TacticalSystemStatus, VariableRecordTypes::JTIDSStatus, VariableRecordTypes::TADILJStatus, VariableRecordTypes::DSDDStatus, VariableRecordTypes::WeaponSystemStatus, VariableRecordTypes::Subsystemstatus, VariableRecordTypes::Numberofinterceptorsfired, VariableRecordTypes::Numberofinterceptordetonations, VariableRecordTypes::Numberofmessagebuffersdropped, VariableRecordTypes::Satellitesensorbackground1, VariableRecordTypes::Satellitesensorbackground2, VariableRecordTypes::ScriptNumber, VariableRecordTypes::EntityTrackUpdateData, VariableRecordTypes::LocalForceTraining, VariableRecordTypes::EntityTrackIdentityData, VariableRecordTypes::EntityforTrackEvent, VariableRecordTypes::IFFstatus, VariableRecordTypes::EngagementData, VariableRecordTypes::TargetLatitude, VariableRecordTypes::TargetLongitude, VariableRecordTypes::AreaofInterestCenterLatitude, VariableRecordTypes::AreaofInterestCenterLongitude, VariableRecordTypes::AreaofInterestRadius, VariableRecordTypes::AreaofInterestType, VariableRecordTypes::TargetAggregateID, VariableRecordTypes::GICIdentificationNumber, VariableRecordTypes::EstimatedTimeofFlighttoTBMImpact, VariableRecordTypes::EstimatedInterceptTime, VariableRecordTypes::EstimatedTimeofFlighttoNextWaypoint, VariableRecordTypes::EntityTrackEquipmentData, VariableRecordTypes::EmissionEWData, VariableRecordTypes::AppearanceData, VariableRecordTypes::CommandOrderData, VariableRecordTypes::EnvironmentalData, VariableRecordTypes::SignificantEventData, VariableRecordTypes::OperatorActionData, VariableRecordTypes::ADAEngagementMode, VariableRecordTypes::ADAShootingStatus, VariableRecordTypes::ADAMode, VariableRecordTypes::ADARadarStatus, VariableRecordTypes::ShootCommand, VariableRecordTypes::ADAWeaponStatus, VariableRecordTypes::ADAFiringDisciple, VariableRecordTypes::OrderStatus, VariableRecordTypes::TimeSynchronization, VariableRecordTypes::TomahawkData, VariableRecordTypes::NumberofDetonations, VariableRecordTypes::NumberofIntercepts, VariableRecordTypes::OBTControlMT201, VariableRecordTypes::SensorDataMT202, VariableRecordTypes::EnvironmentalDataMT203, VariableRecordTypes::OwnshipDataMT204, VariableRecordTypes::AcousticContactDataMT205, VariableRecordTypes::SonobuoyDataMT207, VariableRecordTypes::SonobuoyContactDataMT210, VariableRecordTypes::HeloControlMT211, VariableRecordTypes::ESMControlData, VariableRecordTypes::ESMContactDataMT214, VariableRecordTypes::ESMEmitterDataMT215, VariableRecordTypes::WeaponDefinitionDataMT217, VariableRecordTypes::WeaponPresetDataMT217, VariableRecordTypes::OBTControlMT301, VariableRecordTypes::SensorDataMT302, VariableRecordTypes::EnvironmentalDataMT303m, VariableRecordTypes::OwnshipDataMT304, VariableRecordTypes::AcousticContactDataMT305, VariableRecordTypes::SonobuoyDataMT307, VariableRecordTypes::SonobuoyContactDataMT310, VariableRecordTypes::HeloScenarioEquipmentStatus, VariableRecordTypes::ESMControlDataMT313, VariableRecordTypes::ESMContactDataMT314, VariableRecordTypes::ESMEmitterDataMT315, VariableRecordTypes::WeaponDefinitionDataMT316, VariableRecordTypes::WeaponPresetDataMT317, VariableRecordTypes::PairingAssociation, VariableRecordTypes::Pointer, VariableRecordTypes::ReportingResponsibility, VariableRecordTypes::TrackNumber, VariableRecordTypes::IDforLink11Reporting, VariableRecordTypes::RemoteTrack, VariableRecordTypes::Link11ErrorRate, VariableRecordTypes::TrackQuality, VariableRecordTypes::Gridlock, VariableRecordTypes::Kill, VariableRecordTypes::TrackIDChangeResolution, VariableRecordTypes::WeaponsStatus, VariableRecordTypes::Link11Operator, VariableRecordTypes::ForceTrainingTransmit, VariableRecordTypes::ForceTrainingReceive, VariableRecordTypes::InterceptorAmplification1, VariableRecordTypes::Consumables1, VariableRecordTypes::Link11LocalTrackQuality, VariableRecordTypes::DLRP, VariableRecordTypes::ForceOrder, VariableRecordTypes::WilcoCantco, VariableRecordTypes::EMCBearing, VariableRecordTypes::ChangeTrackEligibility, VariableRecordTypes::LandMassReferencePoint, VariableRecordTypes::SystemReferencePoint, VariableRecordTypes::PUAmplification, VariableRecordTypes::SetDrift, VariableRecordTypes::BeginInitialization, VariableRecordTypes::StatusandControl, VariableRecordTypes::ScintillationChange, VariableRecordTypes::Link11IDControl, VariableRecordTypes::PUGuardList, VariableRecordTypes::WindsAloft, VariableRecordTypes::SurfaceWinds, VariableRecordTypes::SeaState, VariableRecordTypes::MagneticVariation, VariableRecordTypes::TrackEligibility, VariableRecordTypes::TrainingTrackNotification, VariableRecordTypes::TacanData, VariableRecordTypes::InterceptorAmplification2, VariableRecordTypes::TacanAssignment, VariableRecordTypes::AutopilotStatus, VariableRecordTypes::Consumables2, VariableRecordTypes::Downlink, VariableRecordTypes::TINReport, VariableRecordTypes::SpecialPointControl, VariableRecordTypes::ControlDiscretes, VariableRecordTypes::RequestTargetDiscretes, VariableRecordTypes::TargetDiscretes, VariableRecordTypes::ReplyDiscretes, VariableRecordTypes::CommandManeuvers, VariableRecordTypes::TargetData, VariableRecordTypes::TargetPointer, VariableRecordTypes::InterceptData, VariableRecordTypes::DecrementMissileInventory, VariableRecordTypes::Link4AAlert, VariableRecordTypes::StrikeControl, VariableRecordTypes::SpeedChange, VariableRecordTypes::CourseChange, VariableRecordTypes::AltitudeChange, VariableRecordTypes::ACLSANSPN46Status, VariableRecordTypes::ACLSAircraftReport, VariableRecordTypes::SPS67RadarOperatorFunctions, VariableRecordTypes::SPS55RadarOperatorFunctions, VariableRecordTypes::SPQ9ARadarOperatorFunctions, VariableRecordTypes::SPS49RadarOperatorFunctions, VariableRecordTypes::MK23RadarOperatorFunctions, VariableRecordTypes::SPS48RadarOperatorFunctions, VariableRecordTypes::SPS40RadarOperatorFunctions, VariableRecordTypes::MK95RadarOperatorFunctions, VariableRecordTypes::KillNoKill, VariableRecordTypes::CMTpc, VariableRecordTypes::CMC4AirGlobalData, VariableRecordTypes::CMC4GlobalData, VariableRecordTypes::LINKSIMCOMMENTPDU, VariableRecordTypes::NSSTOwnshipControl, VariableRecordTypes::Other, VariableRecordTypes::MassOfTheVehicle, VariableRecordTypes::ForceID3, VariableRecordTypes::EntityTypeKind, VariableRecordTypes::EntityTypeDomain, VariableRecordTypes::EntityTypeCountry, VariableRecordTypes::EntityTypeCategory, VariableRecordTypes::EntityTypeSubCategory, VariableRecordTypes::EntityTypeSpecific, VariableRecordTypes::EntityTypeExtra, VariableRecordTypes::AlternativeEntityTypeKind, VariableRecordTypes::AlternativeEntityTypeDomain, VariableRecordTypes::AlternativeEntityTypeCountry, VariableRecordTypes::AlternativeEntityTypeCategory, VariableRecordTypes::AlternativeEntityTypeSubCategory, VariableRecordTypes::AlternativeEntityTypeSpecific, VariableRecordTypes::AlternativeEntityTypeExtra, VariableRecordTypes::EntityLocationX, VariableRecordTypes::EntityLocationY, VariableRecordTypes::EntityLocationZ, VariableRecordTypes::EntityLinearVelocityX, VariableRecordTypes::EntityLinearVelocityY, VariableRecordTypes::EntityLinearVelocityZ, VariableRecordTypes::EntityOrientationPsi, VariableRecordTypes::EntityOrientationTheta, VariableRecordTypes::EntityOrientationPhi, VariableRecordTypes::DeadReckoningAlgorithm2, VariableRecordTypes::DeadReckoningLinearAccelerationX, VariableRecordTypes::DeadReckoningLinearAccelerationY, VariableRecordTypes::DeadReckoningLinearAccelerationZ, VariableRecordTypes::DeadReckoningAngularVelocityX, VariableRecordTypes::DeadReckoningAngularVelocityY, VariableRecordTypes::DeadReckoningAngularVelocityZ, VariableRecordTypes::EntityAppearance, VariableRecordTypes::EntityMarkingCharacterSet, VariableRecordTypes::EntityMarking11Bytes, VariableRecordTypes::Capability, VariableRecordTypes::NumberArticulationParameters, VariableRecordTypes::ArticulationParameterID, VariableRecordTypes::ArticulationParameterType2, VariableRecordTypes::ArticulationParameterValue2, VariableRecordTypes::TypeOfStores, VariableRecordTypes::QuantityOfStores, VariableRecordTypes::FuelQuantity, VariableRecordTypes::RadarSystemStatus, VariableRecordTypes::RadioCommunicationSystemStatus, VariableRecordTypes::DefaultTimeForRadioTransmissionForStationaryTransmitters, VariableRecordTypes::DefaultTimeForRadioTransmissionForMovingTransmitters, VariableRecordTypes::BodyPartDamagedRatio, VariableRecordTypes::NameOfTheTerrainDatabaseFile, VariableRecordTypes::NameOfLocalFile, VariableRecordTypes::AimpointBearing, VariableRecordTypes::AimpointElevation, VariableRecordTypes::AimpointRange, VariableRecordTypes::AirSpeed, VariableRecordTypes::Altitude, VariableRecordTypes::ApplicationStatus, VariableRecordTypes::AutoIff, VariableRecordTypes::BeaconDelay, VariableRecordTypes::BingoFuelSetting, VariableRecordTypes::CloudBottom, VariableRecordTypes::CloudTop, VariableRecordTypes::Direction, VariableRecordTypes::EndAction, VariableRecordTypes::Frequency, VariableRecordTypes::Freeze, VariableRecordTypes::Heading, VariableRecordTypes::Identification2, VariableRecordTypes::InitialPointData, VariableRecordTypes::Latitude2, VariableRecordTypes::Lights2, VariableRecordTypes::Linear, VariableRecordTypes::Longitude2, VariableRecordTypes::LowAltitude, VariableRecordTypes::MfdFormats, VariableRecordTypes::Nctr, VariableRecordTypes::NumberProjectiles, VariableRecordTypes::OperationCode, VariableRecordTypes::Pitch, VariableRecordTypes::Profiles, VariableRecordTypes::Quantity3, VariableRecordTypes::RadarModes, VariableRecordTypes::RadarSearchVolume, VariableRecordTypes::Roll, VariableRecordTypes::Rotation, VariableRecordTypes::ScaleFactorX, VariableRecordTypes::ScaleFactorY, VariableRecordTypes::Shields2, VariableRecordTypes::Steerpoint, VariableRecordTypes::Spare1, VariableRecordTypes::Spare2, VariableRecordTypes::Team, VariableRecordTypes::Text, VariableRecordTypes::TimeOfDay, VariableRecordTypes::TrailFlag, VariableRecordTypes::TrailSize, VariableRecordTypes::TypeOfProjectile, VariableRecordTypes::TypeOfTarget, VariableRecordTypes::TypeOfThreat, VariableRecordTypes::UhfFrequency, VariableRecordTypes::UtmAltitude, VariableRecordTypes::UtmLatitude, VariableRecordTypes::UtmLongitude, VariableRecordTypes::VhfFrequency, VariableRecordTypes::VisibilityRange, VariableRecordTypes::VoidAaaHit, VariableRecordTypes::VoidCollision, VariableRecordTypes::VoidEarthHit, VariableRecordTypes::VoidFriendly, VariableRecordTypes::VoidGunHit, VariableRecordTypes::VoidRocketHit, VariableRecordTypes::VoidSamHit, VariableRecordTypes::WeaponData, VariableRecordTypes::WeaponType, VariableRecordTypes::Weather2, VariableRecordTypes::WindDirection2, VariableRecordTypes::WindSpeed, VariableRecordTypes::WingStation, VariableRecordTypes::Yaw, VariableRecordTypes::MemoryOffset, VariableRecordTypes::MemoryData, VariableRecordTypes::VASI, VariableRecordTypes::Beacon, VariableRecordTypes::Strobe, VariableRecordTypes::Culture, VariableRecordTypes::Approach, VariableRecordTypes::RunwayEnd, VariableRecordTypes::Obstruction, VariableRecordTypes::RunwayEdge, VariableRecordTypes::RampTaxiway, VariableRecordTypes::LaserBombCode, VariableRecordTypes::RackType, VariableRecordTypes::HUD, VariableRecordTypes::RoleFileName, VariableRecordTypes::PilotName, VariableRecordTypes::PilotDesignation, VariableRecordTypes::ModelType, VariableRecordTypes::DISType, VariableRecordTypes::Class, VariableRecordTypes::Channel, VariableRecordTypes::EntityType2, VariableRecordTypes::AlternativeEntityType2, VariableRecordTypes::EntityLocation, VariableRecordTypes::EntityLinearVelocity, VariableRecordTypes::EntityOrientation, VariableRecordTypes::DeadReckoning, VariableRecordTypes::FailureSymptom, VariableRecordTypes::MaxFuel, VariableRecordTypes::RefuelingBoomConnect, VariableRecordTypes::AltitudeAGL, VariableRecordTypes::CalibratedAirspeed, VariableRecordTypes::TACANChannel1, VariableRecordTypes::TACANBand1, VariableRecordTypes::TACANMode1, VariableRecordTypes::FuelFlowRate, VariableRecordTypes::FuelTemperature, VariableRecordTypes::FuelPressure, VariableRecordTypes::SKESlot, VariableRecordTypes::SKELead, VariableRecordTypes::SKEFrequency, VariableRecordTypes::FCICmd, VariableRecordTypes::FCINum, VariableRecordTypes::SKEBitField, VariableRecordTypes::FormationPosition, VariableRecordTypes::FormationNumber, VariableRecordTypes::FFSModeActive, VariableRecordTypes::FFSRole, VariableRecordTypes::FFSVCAS, VariableRecordTypes::FFSBitField, VariableRecordTypes::FFSCallSign, VariableRecordTypes::FFSGuidanceData, VariableRecordTypes::FFSTextData, VariableRecordTypes::FFSAirdropRequestData, VariableRecordTypes::FFSAirdropData, VariableRecordTypes::HorizontalCircularErrorProbable, VariableRecordTypes::HorizontalPositionError, VariableRecordTypes::VerticalPositionError, VariableRecordTypes::HorizontalVelocityError, VariableRecordTypes::VerticalVelocityError, VariableRecordTypes::_4thLowestJammertoSignalRatioforP1, VariableRecordTypes::_4thLowestJammertoSignalRatioforP2, VariableRecordTypes::GPSFigureofMerit, VariableRecordTypes::WeaponTransferGPSState, VariableRecordTypes::WeaponTransferHorizontalPositionError, VariableRecordTypes::WeaponTransferVerticalPositionError1, VariableRecordTypes::WeaponTransferVerticalPositionError2, VariableRecordTypes::WeaponTransferHorizontalVelocityError, VariableRecordTypes::TimeTransferError, VariableRecordTypes::AgeofEphemeris, VariableRecordTypes::NonFlyoutMunitionEntityRequestDISTypeEnumeration, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointX, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointY, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointZ, VariableRecordTypes::NonFlyoutMunitionEntityRequestMaximumAltitude, VariableRecordTypes::NonFlyoutMunitionEntityRequestFlightPath, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointX, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointY, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointZ, VariableRecordTypes::NonFlyoutMunitionEntityRequestElapsedFlightTime, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchTime, VariableRecordTypes::TimeError, VariableRecordTypes::Link16CommandVariety1, VariableRecordTypes::Push, VariableRecordTypes::Rolex, VariableRecordTypes::TerminateIntercept, VariableRecordTypes::HealDamage, VariableRecordTypes::Destroy, VariableRecordTypes::TransferControlManagement, VariableRecordTypes::Link16ControlsPPLIEnable, VariableRecordTypes::Link16ControlsCommandControlEnable, VariableRecordTypes::Link16ReferencePointMessageInitiation, VariableRecordTypes::AssignExternalEntityLink16TrackNumber, VariableRecordTypes::Link16IntelligenceInfo, VariableRecordTypes::Link16TrackManagement, VariableRecordTypes::Link16ControlsCESGlobalPPLIPublish, VariableRecordTypes::Link16ControlsCESGlobalSurveillancePublish, VariableRecordTypes::RequestGlobalLink16Configuration, VariableRecordTypes::Link16ControlsSurveillanceEnable, VariableRecordTypes::Link16Pointer, VariableRecordTypes::Link16Vector, VariableRecordTypes::Link16ControlUnitChange, VariableRecordTypes::Link16Text, VariableRecordTypes::RequestLink16Objects, VariableRecordTypes::Link16RefObjectNameList, VariableRecordTypes::TotalNumberofPDUsinLink16RefObjectsResponse, VariableRecordTypes::PDUNumberinLink16RefObjectsResponse, VariableRecordTypes::TotalNumberofLink16RefObjects, VariableRecordTypes::Link16ControlsF2FAEnable, VariableRecordTypes::Link16ControlsF2FBEnable, VariableRecordTypes::STNofFormationLeader, VariableRecordTypes::FormationName, VariableRecordTypes::FormationRole, VariableRecordTypes::SurveillanceContributorSensorBasedDetection, VariableRecordTypes::F2FANPG, VariableRecordTypes::Link16ControlsF2FANet, VariableRecordTypes::F2FBNPG, VariableRecordTypes::Link16ControlsF2FBNet, VariableRecordTypes::SurveillanceEnabledNPB, VariableRecordTypes::SurveillanceEnabledNet, VariableRecordTypes::ControlUnitEnabled, VariableRecordTypes::ControlUnitEnabledNPG, VariableRecordTypes::ControlUnitEnabledNet, VariableRecordTypes::VoiceFrequency, VariableRecordTypes::Link16JTIDSVoiceCallsign, VariableRecordTypes::EntityIDofControlUnit, VariableRecordTypes::STNofControlUnit, VariableRecordTypes::NTRParticipationLevel, VariableRecordTypes::Link16ControlsCESGlobalPPLISubscribe, VariableRecordTypes::Link16ControlsCESGlobalSurveillanceSubscribe, VariableRecordTypes::NTRinMission, VariableRecordTypes::NTRMarking, VariableRecordTypes::NTRReceiptCompliance, VariableRecordTypes::FormationF2FNPG, VariableRecordTypes::FormationF2FChannel, VariableRecordTypes::JLVCLogReport, VariableRecordTypes::JLVCSupplyAdjust, VariableRecordTypes::JLVCEntityControl, VariableRecordTypes::JLVCHealthUpdate, VariableRecordTypes::JLVCRepairComplete, VariableRecordTypes::JLVCUnitActivation, VariableRecordTypes::JLVCBattleDamageRepair, VariableRecordTypes::JLVCMinefield, VariableRecordTypes::JLVCWire, VariableRecordTypes::JLVCAbatis, VariableRecordTypes::JLVCCrater, VariableRecordTypes::JLVCDitch, VariableRecordTypes::JLVCLanes, VariableRecordTypes::JLVCIED, VariableRecordTypes::JLVCRubble, VariableRecordTypes::JLVCSubmergedBarrier, VariableRecordTypes::JLVCFloatingBarrier, VariableRecordTypes::JLVCFoxhole, VariableRecordTypes::JLVCVehicleHole, VariableRecordTypes::JLVCVehicleFortification, VariableRecordTypes::JLVCSandbag, VariableRecordTypes::JLVCCheckpoint, VariableRecordTypes::JLVCContamCloud2D, VariableRecordTypes::JLVCPopulationEffect, VariableRecordTypes::JLVCMine, VariableRecordTypes::JLVCSeaMinefield, VariableRecordTypes::Munition, VariableRecordTypes::EngineFuel, VariableRecordTypes::StorageFuel, VariableRecordTypes::NotUsed, VariableRecordTypes::Expendable, VariableRecordTypes::TotalRecordSets, VariableRecordTypes::LaunchedMunition, VariableRecordTypes::Association, VariableRecordTypes::Sensor, VariableRecordTypes::MunitionReload, VariableRecordTypes::EngineFuelReload, VariableRecordTypes::StorageFuelReload, VariableRecordTypes::ExpendableReload, VariableRecordTypes::IFFChangeControlMode1Code, VariableRecordTypes::IFFChangeControlMode2Code, VariableRecordTypes::IFFChangeControlMode3Code, VariableRecordTypes::IFFChangeControlMode4Code, VariableRecordTypes::IFFChangeControlMode5Code, VariableRecordTypes::IFFChangeControlMode6Code, VariableRecordTypes::Link16Data, VariableRecordTypes::ARMAlert, VariableRecordTypes::IFFChangeControlModeOnOff, VariableRecordTypes::WeaponStatusData, VariableRecordTypes::ExpendableStatusData, VariableRecordTypes::TacticStatusData, VariableRecordTypes::EmitterSensorData, VariableRecordTypes::IOSControlData, VariableRecordTypes::StaticStatusData, VariableRecordTypes::RequestInactiveEntities, VariableRecordTypes::InactiveEntityQuantity, VariableRecordTypes::InactiveEntityID, VariableRecordTypes::InactiveEntityType, VariableRecordTypes::ActivationTriggerType, VariableRecordTypes::ActivationTriggerValue, VariableRecordTypes::AirtoAirMissileQty, VariableRecordTypes::AIM7MissileQty, VariableRecordTypes::AIM9MissileQty, VariableRecordTypes::AIM120MissileQty, VariableRecordTypes::AirtoGroundMissileQty, VariableRecordTypes::SurfacetoAirMissileQty, VariableRecordTypes::BulletQty1, VariableRecordTypes::ChaffQty, VariableRecordTypes::FlareQty, VariableRecordTypes::FuelLevel, VariableRecordTypes::RouteType, VariableRecordTypes::ThreatMode, VariableRecordTypes::TargetOccluded, VariableRecordTypes::TerrainHeight, VariableRecordTypes::EntityStatus, VariableRecordTypes::MarshalStatus, VariableRecordTypes::PowerPlantStatus, VariableRecordTypes::NavLightStatus, VariableRecordTypes::InteriorLightStatus, VariableRecordTypes::LandingLightStatus, VariableRecordTypes::FormationLightStatus, VariableRecordTypes::AntiCollisionLightStatus, VariableRecordTypes::NavFormationFlashRate, VariableRecordTypes::AntiColOnDuration, VariableRecordTypes::AntiColOffDuration, VariableRecordTypes::InterceptStatus, VariableRecordTypes::LifeFormSignalingDeviceType, VariableRecordTypes::LifeFormMovementType, VariableRecordTypes::LifeFormInVehicle, VariableRecordTypes::MobilityKill2, VariableRecordTypes::FirepowerKill, VariableRecordTypes::TankerEnabledDisabled, VariableRecordTypes::ThreatStatusTacticOKtoShootDownWeapons, VariableRecordTypes::TACANChannel2, VariableRecordTypes::TACANBand2, VariableRecordTypes::TACANMode2, VariableRecordTypes::RWRStatus, VariableRecordTypes::UHFRadioFrequency, VariableRecordTypes::EmitJammingStatus, VariableRecordTypes::EmitJammingType, VariableRecordTypes::ReceiveJammingStatus, VariableRecordTypes::RADARMode, VariableRecordTypes::AvailableRADARModes, VariableRecordTypes::JammerPodEnumeration, VariableRecordTypes::JammerPodBehavior, VariableRecordTypes::JammerPodPrograms, VariableRecordTypes::JammerPodReceiverSensitivity, VariableRecordTypes::JammerPodReceiverFrequencyMinimum, VariableRecordTypes::JammerPodReceiverFrequencyMaximum, VariableRecordTypes::JammerPodPower, VariableRecordTypes::JammerPodVariability, VariableRecordTypes::JammerPodNumberofFalseTargets, VariableRecordTypes::JammerPodJammerKnob, VariableRecordTypes::JammerPodMissileJamming, VariableRecordTypes::EmitterOverride2, VariableRecordTypes::JammerOverride, VariableRecordTypes::DisengageReengage2, VariableRecordTypes::HeadingOverride, VariableRecordTypes::AltitudeOverride, VariableRecordTypes::SpeedOverride, VariableRecordTypes::VerboseOverride, VariableRecordTypes::OcclusionOverride, VariableRecordTypes::CommitRange, VariableRecordTypes::CurrentScenarioIFFMode4ACodeforThisThreatsAffiliation, VariableRecordTypes::CurrentScenarioIFFMode4BCodeforThisThreatsAffiliation, VariableRecordTypes::OktoEngageWaypointNumber, VariableRecordTypes::MaxSpeedatSeaLevel, VariableRecordTypes::MaxSpeed, VariableRecordTypes::CurrentWaypointNumber, VariableRecordTypes::RouteInformation, VariableRecordTypes::ThreatStatusStaticMultiTargetTrack, VariableRecordTypes::AirAirIRMissileQty, VariableRecordTypes::AirAirRadarMissileQty, VariableRecordTypes::AirGroundIRMissileQty, VariableRecordTypes::AirGroundRadarMissileQty, VariableRecordTypes::AirGroundAntiRadiationMissileQty, VariableRecordTypes::AirGroundBombQty, VariableRecordTypes::AirGroundRocketQty, VariableRecordTypes::SurfaceAirIRMissileQty, VariableRecordTypes::SurfaceAirRadarMissileQty, VariableRecordTypes::BulletQty2, VariableRecordTypes::PPLIPublishEnabled, VariableRecordTypes::SurveillancePublishEnabled, VariableRecordTypes::NPG, VariableRecordTypes::NPGChannel, VariableRecordTypes::JTIDSTrackNumber, VariableRecordTypes::Link16ControlsSurveillanceReportable, VariableRecordTypes::Link16ControlsSurveillanceTrackQuality, VariableRecordTypes::Link16ControlsTargetPositionQuality, VariableRecordTypes::Link16ControlsQualityErrorType, VariableRecordTypes::Link16ControlsAffiliationDeterminationRule, VariableRecordTypes::Link16ControlsResetEntityAffiliation, VariableRecordTypes::Link16ControlsResetAllAffiliation, VariableRecordTypes::EndofMessages, VariableRecordTypes::MalfunctionActivateDeactivateSet, VariableRecordTypes::MalfunctionStatus, VariableRecordTypes::RequestJTIDSTrackNumbers, VariableRecordTypes::TrackNumbersvsEID, VariableRecordTypes::TotalNumberofJTIDSTrackNumbers, VariableRecordTypes::PDUNumberinJTIDSTrackNumberResponse, VariableRecordTypes::TotalNumberofPDUsinJTIDSTrackNumberResponse, VariableRecordTypes::AirtoAirRefuelerEntitiesRequest, VariableRecordTypes::AirtoAirRefuelingCount, VariableRecordTypes::AirToAirRefuelerEntity, VariableRecordTypes::FormationLibraryRequest, VariableRecordTypes::TotalNumberFormationLibraryPDUs1, VariableRecordTypes::PDUNumberinFormationLibraryResponse1, VariableRecordTypes::TotalNumberFormationLibraryItemsinPDU, VariableRecordTypes::FormationLibraryVariable, VariableRecordTypes::CreateRuntimeFormation, VariableRecordTypes::FormationRequestHeader, VariableRecordTypes::FormationPositionAbsolute, VariableRecordTypes::FormationPositionRelative, VariableRecordTypes::ExpendablesReload, VariableRecordTypes::PositionFreeze, VariableRecordTypes::ActivateOwnship, VariableRecordTypes::Chocks, VariableRecordTypes::WarmupCooldownOverride, VariableRecordTypes::GroundPower, VariableRecordTypes::ScrambleStart, VariableRecordTypes::OwnshipasaThreat, VariableRecordTypes::FuelExternal, VariableRecordTypes::FuelInternal, VariableRecordTypes::FuelTankTemp, VariableRecordTypes::GrossWeight, VariableRecordTypes::AngleOfAttack, VariableRecordTypes::GLoad, VariableRecordTypes::WeightOnWheels, VariableRecordTypes::StoredEnergySystemReload, VariableRecordTypes::KillOverride, VariableRecordTypes::ExpendablesFreeze, VariableRecordTypes::GPSSatellitesEnableDisable, VariableRecordTypes::OwnshipMessageDisplay, VariableRecordTypes::WeaponQuantityFreeze, VariableRecordTypes::GlobalControlFreezeWeaponsQuantityOnAllOwnships, VariableRecordTypes::GlobalControlFreezeFuelQuantityOnAllOwnships, VariableRecordTypes::GlobalControlFreezeKillOverrideOnAllOwnships, VariableRecordTypes::GlobalControlFreezeCrashOverrideOnAllOwnships, VariableRecordTypes::OwnshipOFPBlockNumber, VariableRecordTypes::WaypointInformationQuery, VariableRecordTypes::WaypointInformation, VariableRecordTypes::OwnshipSubsystemStatusData, VariableRecordTypes::CockpitSwitchStatus, VariableRecordTypes::IntegratedControlPanelMessages, VariableRecordTypes::ThrottlePositions, VariableRecordTypes::CurrentCriticalSwitchPosition, VariableRecordTypes::CorrectCriticalSwitchPosition, VariableRecordTypes::CurrentCriticalSwitchData, VariableRecordTypes::CorrectCriticalSwitchData, VariableRecordTypes::MissionInitialConditionsSet, VariableRecordTypes::GlobalControlMalfunctionActiveonAllOwnships, VariableRecordTypes::GlobalControlMalfunctionClearOnAllOwnships, VariableRecordTypes::ValidatedCriticalSwitchReport, VariableRecordTypes::SARMapPathname, VariableRecordTypes::ValidatedCriticalSwitchOwnshipID, VariableRecordTypes::LowerBoomEventReport, VariableRecordTypes::RaiseBoomEventReport, VariableRecordTypes::BreakawayEventReport, VariableRecordTypes::CompleteEventReport, VariableRecordTypes::AuxCommPanelFrequencyDisplay, VariableRecordTypes::NetworkStationInformation, VariableRecordTypes::GlobalControlSelectNetworkStation, VariableRecordTypes::NetworkStationUnderGlobalControl, VariableRecordTypes::GlobalControlStillControlling, VariableRecordTypes::GlobalControlReleaseControlofNetworkStation, VariableRecordTypes::GlobalControlFreezeWeaponQuantity, VariableRecordTypes::GlobalControlFreezeFuelQuantity, VariableRecordTypes::GlobalControlFreezeKillOverride, VariableRecordTypes::GlobalControlFreezeCrashOverride, VariableRecordTypes::GlobalControlMalfunctionActive, VariableRecordTypes::GlobalControlMalfunctionClear, VariableRecordTypes::GlobalControlStartDevices, VariableRecordTypes::GlobalControlFreezeDevices, VariableRecordTypes::GlobalControlJTIDSCommand, VariableRecordTypes::NetworkStationICSetInformation, VariableRecordTypes::GlobalControlResetICSet, VariableRecordTypes::NumberofControllingUnits, VariableRecordTypes::NetworkStationJTIDSControllingUnits, VariableRecordTypes::NetworkStationJTIDSObjectiveTracks, VariableRecordTypes::NumberofReferenceObjects, VariableRecordTypes::NetworkStationJTIDSReferenceObjects, VariableRecordTypes::NetworkedStationStillUnderControl, VariableRecordTypes::GlobalControlDeleteThreatEntities, VariableRecordTypes::NetworkStationOwnshipCallsigns, VariableRecordTypes::GlobalControlRequestFormationLibraryData, VariableRecordTypes::TotalNumberFormationLibraryPDUs2, VariableRecordTypes::PDUNumberinFormationLibraryResponse2, VariableRecordTypes::TotalNumberFormationLibraryItemsinPDUs, VariableRecordTypes::NetworkStationFormationLibraryItem, VariableRecordTypes::GlobalControlAddRelativeFormation, VariableRecordTypes::NetworkStationTICFilename, VariableRecordTypes::GlobalControlFreezeWarmupOverride, VariableRecordTypes::GlobalControlReloadSES, VariableRecordTypes::GlobalControlReloadWeapons, VariableRecordTypes::GlobalControlReloadExpendables, VariableRecordTypes::GlobalControlReloadFuel, VariableRecordTypes::GlobalControlReloadFirebottle, VariableRecordTypes::TestPattern, VariableRecordTypes::AudioTest, VariableRecordTypes::AudioTone, VariableRecordTypes::CalibrateThrottles, VariableRecordTypes::OperationalLimitsEventReport, VariableRecordTypes::OperationalLimits, VariableRecordTypes::EventMarkerMessage, VariableRecordTypes::ReceiverAircraftAeroModelData, VariableRecordTypes::TankerAircraftAeroModelData, VariableRecordTypes::BoomAircraftAeroModelData, VariableRecordTypes::AccesstoImageGeneratorData1, VariableRecordTypes::AccesstoImageGeneratorData2, VariableRecordTypes::AccesstoImageGeneratorData3, VariableRecordTypes::AccesstoImageGeneratorData4, VariableRecordTypes::AccesstoImageGeneratorData5, VariableRecordTypes::AccesstoImageGeneratorData6, VariableRecordTypes::AccesstoImageGeneratorData7, VariableRecordTypes::AccesstoImageGeneratorData8, VariableRecordTypes::AccesstoImageGeneratorData9, VariableRecordTypes::AccesstoImageGeneratorData10, VariableRecordTypes::AccesstoImageGeneratorData11, VariableRecordTypes::AccesstoImageGeneratorData12, VariableRecordTypes::AccesstoImageGeneratorData13, VariableRecordTypes::AccesstoImageGeneratorData14, VariableRecordTypes::AccesstoImageGeneratorData15, VariableRecordTypes::AccesstoImageGeneratorData16, VariableRecordTypes::HostLoadNumber, VariableRecordTypes::ExtendedFireEventReports, VariableRecordTypes::BattleDamageAssessmentEventReport, VariableRecordTypes::ExtendedFireEventLauncher, VariableRecordTypes::ExtendedFireEventMissile, VariableRecordTypes::ExtendedFireEventMRMWeapon, VariableRecordTypes::ExtendedFireEventGunFireControl, VariableRecordTypes::ExtendedFireEventBomb, VariableRecordTypes::ExtendedFireEventExpendable, VariableRecordTypes::BattleDamageAssessment, VariableRecordTypes::ExtendedFirePickleEvent, VariableRecordTypes::RadarTrackReport, VariableRecordTypes::JammerReport, VariableRecordTypes::JammerFalseTargetsReport, VariableRecordTypes::DetectEventReport, VariableRecordTypes::MALDBeamReport, VariableRecordTypes::TransmitterRadiationVolume, VariableRecordTypes::TransmitterRadiationVolumev2, VariableRecordTypes::PhysicalNetworkDefinition, VariableRecordTypes::NetworkChannelDefinition, VariableRecordTypes::LogicalNetworkDefinition, VariableRecordTypes::LogicalNetworkEntityDefinition, VariableRecordTypes::PhysicalNetworkEntityDefinition, VariableRecordTypes::C2Message, VariableRecordTypes::CandidateObject, VariableRecordTypes::SetofCandidateObjects, VariableRecordTypes::BoundedRegion, VariableRecordTypes::AngularRegion, VariableRecordTypes::RoEObject, VariableRecordTypes::TrackObject, VariableRecordTypes::SetOfTrackObjects, VariableRecordTypes::LogicalEntityDefinition, VariableRecordTypes::LogicalEntityRelationshipDefinition, VariableRecordTypes::IntentBasedEWMessage], |v| v as u64), scan: Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| VariableRecordTypes::deserialize(&mut b) as u64)) },
  EnumRow { name: "Reason", bits: 8, default: 0, codes: &[("Other", 0), ("Recess", 1), ("Termination", 2), ("SystemFailure", 3), ("SecurityViolation", 4), ("EntityReconstitution", 5), ("StopForReset", 6), ("StopForRestart", 7), ("AbortTrainingReturnToTacticalOperations", 8)], actual: || vec![Reason::Other as u64, Reason::Recess as u64, Reason::Termination as u64, Reason::SystemFailure as u64, Reason::SecurityViolation as u64, Reason::EntityReconstitution as u64, Reason::StopForReset as u64, Reason::StopForRestart as u64, Reason::AbortTrainingReturnToTacticalOperations as u64], decode: |mut b| { let v = Reason::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Reason as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_REASON[i], b), |mut b| <Reason as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_REASON[i]))), pairs: || crate::core::pairs(&[Reason::Other, Reason::Recess, Reason::Termination, Reason::SystemFailure, Reason::SecurityViolation, Reason::EntityReconstitution, Reason::StopForReset, Reason::StopForRestart, Reason::AbortTrainingReturnToTacticalOperations], |v| v as u64), scan: None },
  EnumRow { name: "AcknowledgeFlag", bits: 16, default: 1, codes: &[("CreateEntity", 1), ("RemoveEntity", 2), ("StartResume", 3), ("StopFreeze", 4), ("TransferOwnership", 5)], actual: || vec![AcknowledgeFlag::CreateEntity as u64, AcknowledgeFlag::RemoveEntity as u64, AcknowledgeFlag::StartResume as u64, AcknowledgeFlag::StopFreeze as u64, AcknowledgeFlag::TransferOwnership as u64], decode: |mut b| { let v = AcknowledgeFlag::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AcknowledgeFlag as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_ACKNOWLEDGEFLAG[i], b), |mut b| <AcknowledgeFlag as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_ACKNOWLEDGEFLAG[i]))), pairs: || crate::core::pairs(&[AcknowledgeFlag::CreateEntity, AcknowledgeFlag::RemoveEntity, AcknowledgeFlag::StartResume, AcknowledgeFlag::StopFreeze, AcknowledgeFlag::TransferOwnership], |v| v as u64), scan: None },
  EnumRow { name: "AcknowledgeResponseFlag", bits: 16, default: 0, codes: &[("Other", 0), ("AbleToComply", 1), ("UnableToComply", 2), ("PendingOperatorAction", 3)], actual: || vec![AcknowledgeResponseFlag::Other as u64, AcknowledgeResponseFlag::AbleToComply as u64, AcknowledgeResponseFlag::UnableToComply as u64, AcknowledgeResponseFlag::PendingOperatorAction as u64], decode: |mut b| { let v = AcknowledgeResponseFlag::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AcknowledgeResponseFlag as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_ACKNOWLEDGERESPONSEFLAG[i], b), |mut b| <AcknowledgeResponseFlag as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_ACKNOWLEDGERESPONSEFLAG[i]))), pairs: || crate::core::pairs(&[AcknowledgeResponseFlag::Other, AcknowledgeResponseFlag::AbleToComply, AcknowledgeResponseFlag::UnableToComply, AcknowledgeResponseFlag::PendingOperatorAction], |v| v as u64), scan: None },
  EnumRow { name: "ActionRequestActionID", bits: 32, default: 0, codes: &[("Other", 0), ("LocalStorageOfTherRequestedInformation", 1), ("InformSMofEventRanOutOfAmmunition", 2), ("InformSMofEventKilledInAction", 3), ("InformSMofEventDamage", 4), ("InformSMofEventMobilityDisabled", 5), ("InformSMofEventFiredDisabled", 6), ("InformSMofEventRanOutOfFuel", 7), ("RecallCheckpointData", 8), ("RecallInitialParameters", 9), ("InitiateTetherLead", 10), ("InitiateTetherFollow", 11), ("Unthether", 12), ("InitiateServiceStationResupply", 13), ("InitiateTailgateResupply", 14), ("InitiateHitchLead", 15), ("InitiateHitchFollow", 16), ("Unhitch", 17), ("Mount", 18), ("Dismount", 19), ("StartDRC", 20), ("StopDRC", 21), ("DataQuery", 22), ("StatusRequest", 23), ("SendObjectStateData", 24), ("Reconstitute", 25), ("LockSiteConfiguration", 26), ("UnlockSiteConfiguration", 27), ("UpdateSiteConfiguration", 28), ("QuerySiteConfiguration", 29), ("TetheringInformation", 30), ("MountIntent", 31), ("AcceptSubscription", 33), ("Unsubscribe", 34), ("TeleportEntity", 35), ("ChangeAggregateState", 36), ("RequestStartPDU", 37), ("WakeupGetReadyForInitialization", 38), ("InitializeInternalParameters", 39), ("SendPlanData", 40), ("SynchronizeInternalClocks", 41), ("Run", 42), ("SaveInternalParameters", 43), ("SimulateMalfunction", 44), ("JoinExercise", 45), ("ResignExercise", 46), ("TimeAdvance", 47), ("TACCSFLOSRequestType1", 100), ("TACCSFLOSRequestType2", 101), ("AirmountMountRequest", 4303), ("AirmountDismountRequest", 4304), ("AirmountInformationRequest", 4305)], actual: || vec![ActionRequestActionID::Other as u64, ActionRequestActionID::LocalStorageOfTherRequestedInformation as u64, ActionRequestActionID::InformSMofEventRanOutOfAmmunition as u64, ActionRequestActionID::InformSMofEventKilledInAction as u64, ActionRequestActionID::InformSMofEventDamage as u64, ActionRequestActionID::InformSMofEventMobilityDisabled as u64, ActionRequestActionID::InformSMofEventFiredDisabled as u64, ActionRequestActionID::InformSMofEventRanOutOfFuel as u64, ActionRequestActionID::RecallCheckpointData as u64, ActionRequestActionID::RecallInitialParameters as u64, ActionRequestActionID::InitiateTetherLead as u64, ActionRequestActionID::InitiateTetherFollow as u64, ActionRequestActionID::Unthether as u64, ActionRequestActionID::InitiateServiceStationResupply as u64, ActionRequestActionID::InitiateTailgateResupply as u64, ActionRequestActionID::InitiateHitchLead as u64, ActionRequestActionID::InitiateHitchFollow as u64, ActionRequestActionID::Unhitch as u64, ActionRequestActionID::Mount as u64, ActionRequestActionID::Dismount as u64, ActionRequestActionID::StartDRC as u64, ActionRequestActionID::StopDRC as u64, ActionRequestActionID::DataQuery as u64, ActionRequestActionID::StatusRequest as u64, ActionRequestActionID::SendObjectStateData as u64, ActionRequestActionID::Reconstitute as u64, ActionRequestActionID::LockSiteConfiguration as u64, ActionRequestActionID::UnlockSiteConfiguration as u64, ActionRequestActionID::UpdateSiteConfiguration as u64, ActionRequestActionID::QuerySiteConfiguration as u64, ActionRequestActionID::TetheringInformation as u64, ActionRequestActionID::MountIntent as u64, ActionRequestActionID::AcceptSubscription as u64, ActionRequestActionID::Unsubscribe as u64, ActionRequestActionID::TeleportEntity as u64, ActionRequestActionID::ChangeAggregateState as u64, ActionRequestActionID::RequestStartPDU as u64, ActionRequestActionID::WakeupGetReadyForInitialization as u64, ActionRequestActionID::InitializeInternalParameters as u64, ActionRequestActionID::SendPlanData as u64, ActionRequestActionID::SynchronizeInternalClocks as u64, ActionRequestActionID::Run as u64, ActionRequestActionID::SaveInternalParameters as u64, ActionRequestActionID::SimulateMalfunction as u64, ActionRequestActionID::JoinExercise as u64, ActionRequestActionID::ResignExercise as u64, ActionRequestActionID::TimeAdvance as u64, ActionRequestActionID::TACCSFLOSRequestType1 as u64, ActionRequestActionID::TACCSFLOSRequestType2 as u64, ActionRequestActionID::AirmountMountRequest as u64, ActionRequestActionID::AirmountDismountRequest as u64, ActionRequestActionID::AirmountInformationRequest as u64], decode: |mut b| { let v = ActionRequestActionID::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ActionRequestActionID as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ActionRequestActionID::Other, ActionRequestActionID::LocalStorageOfTherRequestedInformation, ActionRequestActionID::InformSMofEventRanOutOfAmmunition, ActionRequestActionID::InformSMofEventKilledInAction, ActionRequestActionID::InformSMofEventDamage, ActionRequestActionID::InformSMofEventMobilityDisabled, ActionRequestActionID::InformSMofEventFiredDisabled, ActionRequestActionID::InformSMofEventRanOutOfFuel, ActionRequestActionID::RecallCheckpointData, ActionRequestActionID::RecallInitialParameters, ActionRequestActionID::InitiateTetherLead, ActionRequestActionID::InitiateTetherFollow, ActionRequestActionID::Unthether, ActionRequestActionID::InitiateServiceStationResupply, ActionRequestActionID::InitiateTailgateResupply, ActionRequestActionID::InitiateHitchLead, ActionRequestActionID::InitiateHitchFollow, ActionRequestActionID::Unhitch, ActionRequestActionID::Mount, ActionRequestActionID::Dismount, ActionRequestActionID::StartDRC, ActionRequestActionID::StopDRC, ActionRequestActionID::DataQuery, ActionRequestActionID::StatusRequest, ActionRequestActionID::SendObjectStateData, ActionRequestActionID::Reconstitute, ActionRequestActionID::LockSiteConfiguration, ActionRequestActionID::UnlockSiteConfiguration, ActionRequestActionID::UpdateSiteConfiguration, ActionRequestActionID::QuerySiteConfiguration, ActionRequestActionID::TetheringInformation, ActionRequestActionID::MountIntent, ActionRequestActionID::AcceptSubscription, ActionRequestActionID::Unsubscribe, ActionRequestActionID::TeleportEntity, ActionRequestActionID::ChangeAggregateState, ActionRequestActionID::RequestStartPDU, ActionRequestActionID::WakeupGetReadyForInitialization, ActionRequestActionID::InitializeInternalParameters, ActionRequestActionID::SendPlanData, ActionRequestActionID::SynchronizeInternalClocks, ActionRequestActionID::Run, ActionRequestActionID::SaveInternalParameters, ActionRequestActionID::SimulateMalfunction, ActionRequestActionID::JoinExercise, ActionRequestActionID::ResignExercise, ActionRequestActionID::TimeAdvance, ActionRequestActionID::TACCSFLOSRequestType1, ActionRequestActionID::TACCSFLOSRequestType2, ActionRequestActionID::AirmountMountRequest, ActionRequestActionID::AirmountDismountRequest, ActionRequestActionID::AirmountInformationRequest], |v| v as u64), scan: Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| ActionRequestActionID::deserialize(&mut b) as u64)) },
  EnumRow { name: "ActionResponseRequestStatus", bits: 32, default: 0, codes: &[("Other", 0), ("Pending", 1), ("Executing", 2), ("PartiallyComplete", 3), ("Complete", 4), ("RequestRejected", 5), ("RetransmitRequestNow", 6), ("RetransmitRequestLater", 7), ("InvalidTimeParameters", 8), ("SimulationTimeExceeded", 9), ("RequestDone", 10), ("TACCSFLOSReplyTypeOne", 100), ("TACCSFLOSReplyTypeTwo", 101), ("JoinExerciseRequestRejected", 201)], actual: || vec![ActionResponseRequestStatus::Other as u64, ActionResponseRequestStatus::Pending as u64, ActionResponseRequestStatus::Executing as u64, ActionResponseRequestStatus::PartiallyComplete as u64, ActionResponseRequestStatus::Complete as u64, ActionResponseRequestStatus::RequestRejected as u64, ActionResponseRequestStatus::RetransmitRequestNow as u64, ActionResponseRequestStatus::RetransmitRequestLater as u64, ActionResponseRequestStatus::InvalidTimeParameters as u64, ActionResponseRequestStatus::SimulationTimeExceeded as u64, ActionResponseRequestStatus::RequestDone as u64, ActionResponseRequestStatus::TACCSFLOSReplyTypeOne as u64, ActionResponseRequestStatus::TACCSFLOSReplyTypeTwo as u64, ActionResponseRequestStatus::JoinExerciseRequestRejected as u64], decode: |mut b| { let v = ActionResponseRequestStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ActionResponseRequestStatus as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_ACTIONRESPONSEREQUESTSTATUS[i], b), |mut b| <ActionResponseRequestStatus as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_ACTIONRESPONSEREQUESTSTATUS[i]))), pairs: || crate::core::pairs(&[ActionResponseRequestStatus::Other, ActionResponseRequestStatus::Pending, ActionResponseRequestStatus::Executing, ActionResponseRequestStatus::PartiallyComplete, ActionResponseRequestStatus::Complete, ActionResponseRequestStatus::RequestRejected, ActionResponseRequestStatus::RetransmitRequestNow, ActionResponseRequestStatus::RetransmitRequestLater, ActionResponseRequestStatus::InvalidTimeParameters, ActionResponseRequestStatus::SimulationTimeExceeded, ActionResponseRequestStatus::RequestDone, ActionResponseRequestStatus::TACCSFLOSReplyTypeOne, ActionResponseRequestStatus::TACCSFLOSReplyTypeTwo, ActionResponseRequestStatus::JoinExerciseRequestRejected], |v| v as u64), scan: Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| ActionResponseRequestStatus::deserialize(&mut b) as u64)) },
  EnumRow { name: "EventType", bits: 32, default: 0, codes: &[("Other", 0), ("RanOutOfAmmunition", 2), ("KilledInAction", 3), ("Damage", 4), ("MobilityDisabled", 5), ("FireDisabled", 6), ("RanOutOfFuel", 7), ("EntityInitialization", 8), ("RequestForIndirectFireOrCASMission", 9), ("IndirectFireOrCASFire", 10), ("MinefieldEntry", 11), ("MinefieldDetonation", 12), ("VehicleMasterPowerOn", 13), ("VehicleMasterPowerOff", 14), ("AggregateStateChangeRequested", 15), ("PreventCollisionDetonation", 16), ("OwnershipReport", 17), ("RadarPerception", 18), ("Detect", 19)], actual: || vec![EventType::Other as u64, EventType::RanOutOfAmmunition as u64, EventType::KilledInAction as u64, EventType::Damage as u64, EventType::MobilityDisabled as u64, EventType::FireDisabled as u64, EventType::RanOutOfFuel as u64, EventType::EntityInitialization as u64, EventType::RequestForIndirectFireOrCASMission as u64, EventType::IndirectFireOrCASFire as u64, EventType::MinefieldEntry as u64, EventType::MinefieldDetonation as u64, EventType::VehicleMasterPowerOn as u64, EventType::VehicleMasterPowerOff as u64, EventType::AggregateStateChangeRequested as u64, EventType::PreventCollisionDetonation as u64, EventType::OwnershipReport as u64, EventType::RadarPerception as u64, EventType::Detect as u64], decode: |mut b| { let v = EventType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EventType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_EVENTTYPE[i], b), |mut b| <EventType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_EVENTTYPE[i]))), pairs: || crate::core::pairs(&[EventType::Other, EventType::RanOutOfAmmunition, EventType::KilledInAction, EventType::Damage, EventType::MobilityDisabled, EventType::FireDisabled, EventType::RanOutOfFuel, EventType::EntityInitialization, EventType::RequestForIndirectFireOrCASMission, EventType::IndirectFireOrCASFire, EventType::MinefieldEntry, EventType::MinefieldDetonation, EventType::VehicleMasterPowerOn, EventType::VehicleMasterPowerOff, EventType::AggregateStateChangeRequested, EventType::PreventCollisionDetonation, EventType::OwnershipReport, EventType::RadarPerception, EventType::Detect], |v| v as u64), scan: Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| EventType::deserialize(&mut b) as u64)) },
  EnumRow { name: "RequiredReliabilityService", bits: 8, default: 0, codes: &[("Acknowledged", 0), ("Unacknowledged", 1)], actual: || vec![RequiredReliabilityService::Acknowledged as u64, RequiredReliabilityService::Unacknowledged as u64], decode: |mut b| { let v = RequiredReliabilityService::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <RequiredReliabilityService as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_REQUIREDRELIABILITYSERVICE[i], b), |mut b| <RequiredReliabilityService as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_REQUIREDRELIABILITYSERVICE[i]))), pairs: || crate::core::pairs(&[RequiredReliabilityService::Acknowledged, RequiredReliabilityService::Unacknowledged], |v| v as u64), scan: None },
  EnumRow { name: "EmitterName", bits: 16, default: 2, codes: &[("_12456X", 2), ("_1L117", 3), ("_1L121E", 4), ("_1L250", 5), ("_1L220U", 6), ("_1L1221E", 7), ("_1RL257", 9), ("_1RL138", 10), ("_1RL257Jammer", 11), ("_5N20", 12), ("_5H62B", 13), ("_5P10", 14), ("_5P10E", 15), ("_5P1001", 16), ("_5P1001E", 17), ("_5P1002", 18), ("_5P1002E", 19), ("_5P1003", 20), ("_5P1003E", 21), ("_5P10EMOD", 22), ("_621A3", 25), ("_860F1AL101", 40), ("_9B1103M2", 42), ("_1226DECCAMIL", 45), ("_9B1348", 46), ("_3KM6", 47), ("_9KR400", 48), ("_50N6A", 49), ("_55G61", 50), ("_59N6", 55), ("_5N69", 57), ("_67N6", 60), ("_76T6", 63), ("_77T6ABM", 64), ("_80K6", 65), ("_91N6A", 66), ("_96L6E", 70), ("_96L6TsP", 75), ("_9C18M3", 76), ("_9C36M", 77), ("_9GR400", 80), ("_9GR400A", 81), ("_9GR600", 90), ("_9GR606", 91), ("_9LV100", 125), ("_9LV200TA", 135), ("_9LV200TV", 180), ("_9LV200TT", 181), ("_9LV200MKIII", 183), ("_9LV326", 185), ("_9M96E2Seeker", 190), ("_9S15M2", 195), ("_9S19M2", 196), ("_9S19ME", 197), ("_9S32M", 198), ("_9S32ME", 199), ("_9S36E", 200), ("_9S112", 215), ("A310Z", 225), ("A325A", 270), ("A346Z", 315), ("A353B", 360), ("A372A", 405), ("A372B", 450), ("A372C", 495), ("A377A", 540), ("A377B", 585), ("A380Z", 630), ("A381Z", 675), ("A398Z", 720), ("A403Z", 765), ("A409A", 810), ("A418A", 855), ("A419Z", 900), ("A429Z", 945), ("A432Z", 990), ("A434Z", 1035), ("AA6CAcrid", 1070), ("AA7CApex", 1073), ("A401A", 1080), ("AA10A", 1081), ("AA10CAlamoC", 1082), ("AA13ArrowSeeker", 1085), ("AAM4BMH", 1090), ("AA300", 1094), ("AA12Seeker", 1095), ("AD4A", 1096), ("ADES", 1097), ("ADS4LRSR", 1098), ("ACR430", 1099), ("Agave", 1100), ("ACSOPRIE", 1101), ("ABD2000", 1102), ("ADACMK1", 1110), ("ADACMK2", 1111), ("ADAR", 1113), ("ADOUR", 1115), ("AGAT9B1348", 1117), ("AdrosKT01AV", 1118), ("Agat9E420", 1120), ("AGM158JASSMSAR", 1122), ("AGM88HARMMMW", 1123), ("AGRION15", 1125), ("AHV7", 1130), ("AHV17", 1150), ("AIMK23", 1170), ("AIDAII", 1215), ("AIM120A", 1216), ("AIM7MSparrow", 1218), ("_1L271", 1230), ("ALA51", 1240), ("AlbatrosMK2", 1260), ("ALT50", 1263), ("ALTAIR", 1264), ("AMAPS717", 1265), ("AMES13MK1", 1268), ("WGU16B", 1270), ("_1L133BoxSpring", 1280), ("_1L133BoxSpringB", 1282), ("AMDR3D", 1288), ("ANASPS502", 1305), ("Anemone", 1306), ("ANRITSUElectricAR30A", 1350), ("AntilopeV", 1395), ("ANAAQ24", 1397), ("ANADM160", 1398), ("AN_ALE50", 1400), ("AN_ALQ76", 1410), ("AN_ALQ99", 1440), ("AN_ALQ99Band4", 1441), ("AN_ALQ99LBT", 1442), ("AN_ALQ100", 1485), ("AN_ALQ101", 1530), ("AN_ALQ119", 1575), ("AN_ALQ122", 1585), ("AN_ALQ126A", 1620), ("AN_ALQ128", 1621), ("AN_ALQ126B", 1622), ("AN_ALQ131", 1626), ("AN_ALQ131BlkII", 1627), ("AN_ALQ135CD", 1628), ("AN_ALQ144A3", 1630), ("AN_ALQ153", 1632), ("AN_ALQ157Jammer", 1633), ("AN_ALQ155", 1634), ("AN_ALQ156", 1635), ("AN_ALQ161A", 1636), ("AN_ALQ161", 1637), ("AN_ALQ162", 1638), ("AN_ALQ164", 1639), ("AN_ALQ165", 1640), ("AN_ALQ187Jammer", 1641), ("AN_ALQ167", 1642), ("AN_ALQ1721", 1643), ("AN_ALQ1722", 1644), ("AN_ALQ1723", 1645), ("AN_ALQ176", 1646), ("AN_ALQ178", 1647), ("AN_ALQ184", 1648), ("AN_ALQ1849", 1649), ("AN_ALQ188", 1650), ("AN_ALQ214", 1651), ("AN_ALR56", 1652), ("AN_ALQ221", 1653), ("AN_ALR69", 1654), ("AN_ALQ211", 1655), ("AN_ALT16A", 1656), ("AN_ALQ173", 1657), ("AN_ALT28", 1658), ("AN_ALR66BJammer", 1659), ("AN_ALT32A", 1660), ("AN_ALQ196", 1661), ("ALQ249NextGenerationJammer", 1662), ("AN_ALQ2401Jammer", 1663), ("AN_ALR66BJammer2", 1664), ("AN_APD10", 1665), ("AN_ALQ213", 1670), ("ALQ214A45Jammer", 1672), ("AN_ALQ218", 1680), ("ANAPG50", 1700), ("ANAPG53", 1710), ("ANAPG59", 1755), ("ANAPG63", 1800), ("ANAPG631", 1805), ("ANAPG632", 1807), ("ANAPG633", 1809), ("ANAPG65", 1845), ("ANAPG66", 1870), ("ANAPG66V", 1871), ("ANAPG66V2", 1872), ("ANAPG67", 1880), ("ANAPG68", 1890), ("ANAPG689", 1895), ("ANAPG70", 1935), ("ANAPG71", 1940), ("ANAPG73", 1945), ("ANAPG77", 1960), ("ANAPG78", 1970), ("ANAPG79", 1971), ("ANAPG80", 1972), ("ANAPG81", 1974), ("ANAPG821", 1975), ("ANAPG83", 1976), ("ANAPG502", 1980), ("ANAPN1", 2025), ("ANAPN22", 2070), ("ANAPN59", 2115), ("ANAPN69", 2160), ("ANAPN81", 2205), ("ANAPN102", 2220), ("ANAPN117", 2250), ("ANAPN118", 2295), ("ANAPN122", 2320), ("ANAPN130", 2340), ("ANAPN131", 2385), ("ANAPN133", 2430), ("ANAPN134", 2475), ("ANAPN141", 2476), ("ANAPN147", 2520), ("ANAPN150", 2565), ("ANAPN153", 2610), ("ANAPN154", 2655), ("ANAPN155", 2700), ("ANAPN159", 2745), ("ANAPN177", 2746), ("ANAPN179", 2747), ("ANAPN169", 2748), ("ANAPN182", 2790), ("ANAPN187", 2835), ("ANAPN190", 2880), ("ANAPN194", 2925), ("ANAPN195", 2970), ("ANAPN198", 3015), ("ANAPN200", 3060), ("ANAPN202", 3105), ("ANAPN215", 3106), ("ANAPN209", 3120), ("ANAPN209D", 3121), ("ANAPN209A", 3122), ("ANAPN215_2", 3148), ("ANAPN217", 3150), ("ANAPN218", 3152), ("ANAPN224", 3153), ("ANAPN227", 3154), ("ANAPN230", 3155), ("ANAPN232", 3156), ("ANAPN237A", 3157), ("ANAPN234", 3158), ("ANAPN235", 3159), ("ANAPN238", 3160), ("ANAPN222", 3161), ("ANAPN239", 3162), ("ANAPN241", 3164), ("ANAPN242", 3166), ("ANAPN243", 3170), ("ANAPN506", 3195), ("ANAPQ72", 3240), ("ANAPQ99", 3285), ("ANAPQ100", 3330), ("ANAPQ102", 3375), ("ANAPQ107", 3376), ("ANAPQ109", 3420), ("ANAPQ113", 3465), ("ANAPQ120", 3510), ("ANAPQ122", 3512), ("ANAPQ126", 3555), ("ANAPQ128", 3600), ("ANAPQ129", 3645), ("ANAPQ148", 3690), ("ANAPQ150A", 3700), ("ANAPQ153", 3735), ("ANAPQ155", 3770), ("ANAPQ159", 3780), ("ANAPQ164", 3785), ("ANAPQ166", 3788), ("ANAPQ170", 3790), ("ANAPQ174", 3791), ("ANAPQ180", 3794), ("ANAPQ181", 3795), ("ANAPQ186", 3800), ("ANAPS15J", 3810), ("ANAPS162", 3813), ("ANAPS31", 3820), ("ANAPS42", 3825), ("ANAPS80", 3870), ("ANAPS88", 3915), ("ANAPS88A", 3916), ("ANAPS94", 3920), ("ANAPS96", 3922), ("ANAPS113", 3958), ("ANAPS115", 3960), ("ANAPS116", 4005), ("ANAPS120", 4050), ("ANAPS121", 4095), ("ANAPS124", 4140), ("ANAPS125", 4185), ("ANAPS127", 4190), ("ANAPS128", 4230), ("ANAPS130", 4275), ("ANAPS133", 4320), ("ANAPS134", 4365), ("ANAPS137", 4410), ("ANAPS1375", 4413), ("ANAPS137B", 4415), ("ANAPS137B5", 4420), ("ANAPS137D5Elta", 4425), ("ANAPS138", 4455), ("ANAPS139", 4460), ("ANAPS143", 4464), ("ANAPS1431", 4465), ("ANAPS143B", 4466), ("ANAPS1433", 4467), ("ANAPS143B3", 4468), ("ANAPS153", 4475), ("ANAPS154", 4476), ("ANAPS150", 4480), ("ANAPS145", 4482), ("ANAPS147", 4485), ("ANAPS149", 4486), ("ANAPS503", 4489), ("ANAPS504", 4490), ("ANAPS705", 4491), ("ANAPW22", 4500), ("ANAPW23", 4545), ("ANAPX6", 4590), ("ANAPX7", 4635), ("ANAPX39", 4680), ("ANAPX64", 4681), ("ANAPX72", 4725), ("ANAPX76", 4770), ("ANAPX78", 4815), ("ANAPX100", 4816), ("ANAPX101", 4860), ("ANAPX113AIFF", 4870), ("ANAPY1", 4900), ("ANAPY2", 4905), ("ANAPY3", 4950), ("ANAPY7", 4952), ("ANAPY8", 4953), ("ANAPY9", 4954), ("ANAPY10", 4955), ("ANARN21", 4995), ("ANARN52", 5040), ("ANARN84", 5085), ("ANARN118", 5130), ("ANARN153V", 5131), ("ANARN153", 5165), ("ANARW73", 5175), ("ANASB1", 5220), ("ANASG21", 5265), ("ANASN137", 5266), ("ANASN128", 5270), ("ANASQ108", 5280), ("ANASQ239", 5285), ("ANAST502", 5290), ("ANAVQ55", 5300), ("ANAWG9", 5310), ("ANBRN1", 5320), ("ANBPS5", 5325), ("ANBPS9", 5355), ("ANBPS15", 5400), ("ANBPS15H", 5401), ("ANBPS15J", 5402), ("ANBPS16", 5405), ("ANBPS162", 5406), ("ANCPN4", 5410), ("ANCPN18", 5415), ("ANCRM30", 5420), ("ANDPW23", 5430), ("ANDSQ26PhoenixMH", 5445), ("ANDSQ28HarpoonMH", 5490), ("ANFPN1", 5491), ("ANFPN28", 5493), ("ANFPN33", 5494), ("ANFPN40", 5495), ("ANFPN62", 5500), ("ANFPN66", 5502), ("ANFPS8", 5503), ("ANFPN67", 5504), ("ANFPS16", 5505), ("ANFPS5", 5506), ("ANFPS18", 5507), ("ANFPS89", 5508), ("ANFPS49", 5509), ("ANFPS117", 5510), ("ANFPS85", 5511), ("ANFPS88", 5512), ("ANFPS113", 5513), ("ANFPS115", 5514), ("ANFPS20R", 5515), ("ANFPS132", 5516), ("ANFPS77", 5520), ("ANFPS41", 5521), ("ANFPS100A", 5522), ("ANFPS103", 5525), ("ANFPS108", 5526), ("ANGPN12", 5527), ("ANFPS124", 5528), ("ANFPS129", 5529), ("ANGPX6", 5530), ("ANGPX8", 5535), ("ANGRN12", 5537), ("ANMPN14K", 5538), ("ANMPN14", 5539), ("ANMPQ10", 5540), ("ANMPN17", 5541), ("ANMPQ3339465761ILL", 5545), ("ANMPQ34485562TA", 5550), ("ANMPQ49", 5551), ("ANMPQ3550TA", 5555), ("ANMPQ50C", 5556), ("ANMPQ3751TT", 5560), ("ANMPQ43", 5565), ("ANMPQ50", 5567), ("ANMPQ53", 5570), ("ANMPQ63", 5571), ("ANMPQ64", 5575), ("ANSLQ32", 5576), ("ANMPQ65", 5577), ("ANSLQ324", 5578), ("ANSLQ32A", 5579), ("ANSPG34", 5580), ("ANMSQ104", 5582), ("ANMPS36", 5583), ("ANSLQ503", 5584), ("ANSPG48MK25MOD3", 5620), ("ANSPG50", 5625), ("ANSPG51", 5670), ("ANPPQ2", 5690), ("ANPPS15", 5700), ("ANPPS5", 5705), ("ANPPS5D", 5710), ("ANSPG51CWITI", 5715), ("ANSPG51FC", 5760), ("ANSPG51CD", 5761), ("ANSPG52", 5805), ("ANSPG53", 5850), ("ANSPG55B", 5895), ("ANSPG60", 5940), ("ANSPG62", 5985), ("ANSPG503", 5995), ("ANSPN4", 6015), ("ANSPN11", 6025), ("ANSPN35", 6030), ("ANSPN41", 6050), ("ANSPN43", 6075), ("ANSPN43A", 6076), ("ANSPN43C", 6078), ("ANSPN46", 6085), ("ANSPQ2", 6120), ("ANSPQ5A", 6155), ("ANSPQ9A", 6165), ("ANSPQ9B", 6166), ("ANSPQ34", 6190), ("ANSPS4", 6210), ("ANSPS5", 6255), ("ANSPS5C", 6300), ("ANSPS6", 6345), ("ANSPS10", 6390), ("ANSPS21", 6435), ("ANSPS28", 6480), ("ANSPS37", 6525), ("ANSPS39A", 6570), ("ANSPS40", 6615), ("ANSPS41", 6660), ("ANSPS48", 6705), ("ANSPS48C", 6750), ("ANSPS48E", 6752), ("ANSPS49", 6795), ("ANSPS491", 6796), ("ANSPS492", 6797), ("ANSPS493", 6798), ("ANSPS494", 6799), ("ANSPS495", 6800), ("ANSPS496", 6801), ("ANSPS497", 6802), ("ANSPS498", 6803), ("ANSPS49A1", 6804), ("ANSPS52", 6840), ("ANSPS53", 6885), ("ANSPS55", 6930), ("ANSPS52C", 6945), ("ANSPS55CS", 6970), ("ANSPS55SS", 6975), ("ANSPS58", 7020), ("ANSPS58C", 7025), ("ANSPS59", 7065), ("ANSPS64", 7110), ("ANSPS649", 7119), ("SPS6412", 7120), ("ANSPS65", 7155), ("ANSPS66", 7175), ("ANSPS67", 7200), ("ANSPS73_1", 7201), ("ANSPS69", 7210), ("ANSPS73_2", 7215), ("ANSPS74", 7216), ("ANSPS88", 7225), ("ANSPS501", 7226), ("ANSPS505", 7230), ("ANSPY1", 7245), ("ANSPY1A", 7250), ("ANSPY1B_1", 7252), ("ANSPY1B_2", 7253), ("ANSPY1D_1", 7260), ("ANSPY1D_2", 7261), ("ANSPY1F", 7265), ("ANSPY3", 7266), ("ANTPN12", 7267), ("ANSPY4", 7268), ("ANTLQ32ARMDecoy", 7269), ("ANTPN17", 7270), ("ANTPN8", 7271), ("ANTPN22", 7272), ("ANTLQ17A", 7273), ("ANTMS1", 7274), ("ANTPN24", 7275), ("ANTPN25", 7276), ("ANTMS2", 7277), ("ANTPN19", 7278), ("ANTPN31", 7279), ("ANTPQ18", 7280), ("ANSPY6", 7281), ("ANTPQ36", 7295), ("ANTPQ37", 7300), ("ANTPQ38", 7301), ("ANTPQ39", 7302), ("ANTPQ47", 7303), ("ANTPS43", 7305), ("ANTPS43E", 7310), ("ANTPQ48", 7311), ("ANTPQ49", 7312), ("ANTPQ46A", 7313), ("ANTPS34", 7314), ("ANTPS59", 7315), ("ANTPS44", 7316), ("ANTPQ50", 7317), ("ANTPS63", 7320), ("ANTPS65", 7321), ("ANTPS701", 7322), ("ANTPS63SS", 7323), ("ANTPS73", 7324), ("ANTPS75", 7325), ("ANTPS77", 7326), ("ANTPS78", 7327), ("ANTPS79", 7328), ("ANTPS703", 7329), ("ANTPX467", 7330), ("ANTPS80", 7331), ("ANTPY2", 7333), ("ANTSQ288", 7334), ("ANULQ6A", 7335), ("ANULQ19", 7340), ("ANULQ21", 7345), ("ANUPN25", 7380), ("ANUPS1", 7425), ("ANUPS2", 7426), ("ANUPS3", 7427), ("ANUPX1", 7470), ("ANUPX5", 7515), ("ANUPX11", 7560), ("ANUPX12", 7605), ("ANUPX17", 7650), ("ANUPX23", 7695), ("ANUSQ1133", 7700), ("ANVPS2", 7740), ("ANPLM3", 7750), ("ANPLM3A", 7751), ("ANPLM4", 7752), ("ANZPY1", 7753), ("ANZPY2MPRTIP", 7754), ("ANZPY3", 7755), ("ANZPY8", 7760), ("AORL1AS", 7761), ("AORL85KTKMTA", 7762), ("APAR", 7765), ("Aparna", 7770), ("APECSII", 7780), ("ApelcoAD77", 7785), ("APG71", 7830), ("APN148", 7875), ("APN227", 7920), ("APQ113", 7965), ("APQ120", 8010), ("APQ148", 8055), ("APS504V3", 8100), ("AQUITAINEII", 8102), ("AR1", 8103), ("AR3D", 8105), ("PlesseyAR5", 8112), ("AR15", 8113), ("AR152", 8114), ("AR320", 8115), ("AR325", 8118), ("AR327", 8120), ("Arbalet52", 8121), ("ARBB31", 8122), ("ARBB33", 8123), ("ARIES", 8126), ("AriesNav", 8127), ("AriesCS", 8128), ("ARGS14E", 8134), ("ARGS31", 8135), ("ARGUS", 8140), ("ARM31", 8145), ("ARECIBO", 8150), ("ARED", 8160), ("ARI5954", 8190), ("ARI5955", 8235), ("ARI5979", 8280), ("ARGSN31", 8281), ("ARGOS10", 8282), ("ARGOS800", 8283), ("ARI5983", 8284), ("ARI5991", 8285), ("ARI5995", 8290), ("ARINC564BNDXKINGRDR1E", 8325), ("ARINC700BNDXKINGRDR1E", 8370), ("ARK1", 8375), ("ARLMMTI", 8378), ("ARMOR", 8379), ("ARSR3", 8380), ("ARS400", 8381), ("ARSR1", 8382), ("ARSR4", 8384), ("ARSR18", 8390), ("ARTHUR", 8395), ("ARTHURMODB", 8400), ("ARTHURMODC", 8405), ("ARTISAN3D", 8410), ("AS2Kipper", 8415), ("AS2KipperMH", 8460), ("AS3YJ83KmmWMH", 8470), ("AS_34KormoranSeeker", 8480), ("AS4Kitchen", 8505), ("AS4KitchenMH", 8550), ("AS5KeltMH", 8595), ("AS6KingfishMH", 8640), ("AS7Kerry", 8685), ("AS7KerryMG", 8730), ("AS15KENTaltimeter", 8735), ("AS17AKryptonSeeker", 8736), ("AS17BKryptonSeeker", 8737), ("AS901", 8750), ("AS901A", 8751), ("ASARS2", 8755), ("ASDEKDD", 8756), ("ASLESHA", 8757), ("ASMGCS", 8758), ("ASMI18X", 8759), ("AspideAAMSAMILL", 8760), ("ASMI3", 8761), ("AselsanMAR", 8762), ("ASR2000", 8771), ("ASR4", 8772), ("ASR4D", 8773), ("ASRO", 8775), ("ASR12_1", 8776), ("ASR22AL", 8778), ("ASR3", 8779), ("ASR5", 8780), ("ASR7", 8782), ("ASR8", 8785), ("ASR9", 8790), ("ASR9000", 8791), ("ASTI", 8792), ("ASR11DASR", 8793), ("ASR12_2", 8795), ("RaytheonASR10SS", 8812), ("ASR23SS", 8816), ("Arabel", 8818), ("ASTRE", 8819), ("AT2SwatterMG", 8820), ("_9K114ShturmMG", 8824), ("ASTOR", 8825), ("ASTRARCI", 8826), ("ATCR22", 8830), ("ATCR22M", 8831), ("ATCR2T", 8832), ("ATCR33", 8840), ("ATCR33KM", 8845), ("ATCR33S", 8846), ("ATCR3T", 8847), ("ATCR44", 8848), ("ATCR44K", 8849), ("Argos73", 8850), ("ATCR44MS", 8851), ("ATCR4T", 8852), ("AtlasElektronkTRSN", 8865), ("ATLAS8600X", 8866), ("Atlas9600M", 8867), ("ATLAS9600X", 8868), ("ATLAS9600S", 8869), ("ATLAS9740VTS", 8870), ("ATLASS", 8871), ("ATR500C", 8880), ("AVG65", 8910), ("AVH7", 8955), ("AVIACM", 8980), ("AVIAD", 8985), ("Aviaconversia", 8990), ("AviaconversiaII", 8993), ("AviaconversiaIII", 8995), ("AVQ20", 9000), ("AVQ21", 9005), ("AVQ30X", 9045), ("AVQ50", 9075), ("AVQ70", 9090), ("AWS5", 9135), ("AWS6", 9180), ("AWS6B300", 9185), ("B597Z", 9200), ("B636Z", 9205), ("BackBoard", 9215), ("BackNetAB", 9225), ("BackTrap", 9270), ("BAESystemsRT1805APN", 9280), ("BAESDASS2000Jammer", 9281), ("BalanceBeam", 9285), ("BALTIKAB", 9300), ("BALTYK", 9310), ("BallEnd", 9315), ("BallGun", 9360), ("BALLPOINT", 9370), ("BandStand", 9405), ("BandStand3", 9406), ("P3537", 9450), ("BARAX", 9475), ("BASIR110D", 9485), ("BassTilt", 9495), ("Badger", 9505), ("BarracudaJammer", 9510), ("BaykalCountermeasuresSuite", 9530), ("Beacon", 9540), ("BeanSticks", 9585), ("BeeHind", 9630), ("BellNipJammer", 9638), ("BellPushJammer", 9639), ("BellCrownA", 9640), ("BellCrownB", 9642), ("BellSquat", 9643), ("BIGBACK", 9645), ("BigBirdABC", 9659), ("BigBirdD", 9660), ("BigBirdDMod", 9661), ("BigBirdE91N6E", 9662), ("BigBulge", 9675), ("BigBulgeA", 9720), ("BigBulgeB", 9765), ("BIGEYE", 9775), ("SNAR10", 9780), ("BIGHEADB", 9781), ("BigMesh", 9810), ("BigNet", 9855), ("_9S15MT", 9885), ("BillFold", 9900), ("BLIGHTER400", 9903), ("BlowpipeMG", 9905), ("BLR", 9920), ("BlueFox", 9930), ("BlueKestrel", 9933), ("BlueVixen", 9935), ("BlueSilk", 9945), ("BlueParrot", 9990), ("BlueOrchid", 10035), ("BMDJG8715", 10057), ("BoatSail", 10080), ("BORA550", 10090), ("BoforsElectronic9LV331", 10125), ("BoforsEricssonSeaGiraffe50HC", 10170), ("BowlMesh", 10215), ("BoxBrick", 10260), ("BoxTrail", 10305), ("BMKG300GJammingPod", 10308), ("BMKG600JammingPod", 10310), ("BMKG800JammingPod", 10312), ("BMKG860186058606", 10315), ("BPS11A", 10350), ("BPS14", 10395), ("BPS15A", 10440), ("BR3440CAX57", 10450), ("BR15TokyoKEIKI", 10485), ("BrahMos", 10500), ("BridgeMaster", 10510), ("BridgeMasterEEPA", 10511), ("BridgeMasterEATAandARPA", 10512), ("BridgeMasterEnaval", 10513), ("BrimstonemmWMH", 10520), ("BreadBin", 10530), ("Asr", 10540), ("BT271", 10575), ("BU304", 10595), ("BX732", 10620), ("BUKMB", 10630), ("BuranD", 10642), ("BUREVISNYK1", 10650), ("BuzzStand", 10665), ("C5AMultiModeRadar", 10710), ("C802AL", 10711), ("CAESAR", 10740), ("Caiman", 10755), ("CakeStand", 10800), ("CalypsoC61", 10845), ("CalypsoC63", 10846), ("CalypsoIi", 10890), ("CalypsoIII", 10891), ("CalypsoIV", 10892), ("CardionCoastal", 10895), ("CastorIi", 10935), ("Castor2JTT", 10940), ("CatHouse", 10980), ("CDR431", 10985), ("CEAFAR", 10987), ("CEAMOUNT", 10988), ("CEAFAR2L", 10989), ("CEROS200", 10990), ("CEROS200CWI", 10991), ("CEATAC", 10992), ("CEAOPS", 10993), ("CerberusIII", 10994), ("CHSSN6", 10995), ("CerberusIV", 10996), ("ChairBlackTT", 11000), ("ChairBlackILL", 11010), ("LEMZ96L6", 11020), ("CheeseBrick", 11025), ("CheeseCake", 11030), ("LeninetzObzorMS", 11070), ("Clamshell", 11115), ("CLC1", 11117), ("CLC2", 11118), ("CLC3", 11119), ("CLR155", 11120), ("COASTWATCHER100", 11123), ("CoastalGiraffe", 11125), ("COBRA", 11130), ("CobraShoe", 11133), ("Colibri", 11137), ("CollinsWXR300", 11155), ("CollinsWXR700X", 11160), ("CollinsTWR850", 11165), ("CollinsDN101", 11205), ("COMET1", 11230), ("CONDORMK2", 11235), ("ConsiliumSelesmarRTM25XIM", 11240), ("ContravesSeaHunterMK4", 11250), ("CornCan", 11260), ("COSMOSKYMED1", 11265), ("CR105RMCA", 11270), ("CREWDuke2", 11280), ("CREWDuke3", 11290), ("CrossBird", 11295), ("CrossDome", 11340), ("CrossLegs", 11385), ("CrossOut", 11430), ("CrossSlot", 11475), ("CrossSword", 11520), ("CrossUp", 11565), ("CrossSwordFC", 11610), ("CrotaleAcquisitionTA", 11655), ("CrotaleNGTA", 11660), ("CrotaleTT", 11665), ("CrotaleMGMissileSystem", 11700), ("CS10TA", 11715), ("CSFVaran", 11725), ("CSSN4MH", 11735), ("CSSC3CCAS1M1M2MH", 11745), ("HY2BMH", 11748), ("CSSC2BHY1AMH", 11790), ("CSSN4Sardine", 11800), ("CSSN8Saccade", 11810), ("CurlStoneB", 11825), ("CWS1", 11830), ("CWS2", 11835), ("CWS3", 11840), ("Cygnus", 11860), ("CylinderHead", 11880), ("Cymbeline", 11902), ("CyranoII", 11925), ("CyranoIV", 11970), ("CyranoIVM", 11975), ("DA0100", 12010), ("DA0500", 12015), ("DA052", 12016), ("DA_08", 12018), ("Dawn", 12060), ("DCR", 12090), ("DeadDuck", 12105), ("DECCA20V909", 12110), ("DECCA20V90S", 12111), ("DECCA45", 12150), ("DECCA50", 12195), ("DECCA71", 12196), ("Decca72", 12197), ("DECCA110", 12240), ("DECCA170", 12285), ("DECCAHF2", 12292), ("DECCA202", 12330), ("DECCAD202", 12375), ("DECCA303", 12420), ("DECCA535", 12430), ("DECCA626", 12465), ("DECCA629", 12510), ("DECCA914", 12555), ("DECCA916", 12600), ("DECCA926", 12610), ("DECCA1070A", 12615), ("Decca1008", 12616), ("DECCA1226Commercial", 12645), ("DECCA1290", 12655), ("DECCA1626", 12690), ("DECCA2070", 12691), ("Decca1630", 12694), ("DECCA2459", 12735), ("DECCAAWS1", 12780), ("DECCAAWS2", 12782), ("DECCAAWS4", 12785), ("DECCAAWS42", 12787), ("DECCAMAR", 12800), ("DECCARM326", 12805), ("DECCARM416", 12825), ("DECCARM970BT", 12850), ("DECCARM914", 12870), ("DF21DSeeker", 12875), ("DECCARM1690", 12915), ("DECCA1690", 12916), ("DECCASuper101MK3", 12960), ("DISS1", 13005), ("DISS7", 13006), ("DISS013", 13007), ("DISS15D", 13015), ("DLD100A", 13020), ("RapierTTDN181", 13050), ("Rapier2000TT", 13055), ("DogEar", 13095), ("DogHouse", 13140), ("DM3", 13141), ("DM3B", 13142), ("DM5", 13143), ("Don2", 13185), ("DonAB2Kay", 13230), ("Donets", 13275), ("Doppler90Series", 13280), ("DownBeat", 13320), ("DR582", 13360), ("DRAA2A", 13365), ("DRAA2B", 13410), ("DRAA9A", 13415), ("DRAA11A", 13420), ("DRAC37B", 13450), ("DRAC38", 13452), ("DRAC39", 13455), ("DRAC39A", 13456), ("DRAC43A", 13460), ("DRAC44A", 13465), ("DragonEye", 13477), ("DragonEye2", 13480), ("DragonEye3", 13481), ("DragonEye4", 13485), ("DRBC30B", 13500), ("DRBC31A", 13545), ("DRBC31D", 13546), ("DRBC32", 13585), ("DRBC32A", 13590), ("DRBC32D", 13635), ("DRBC33A", 13680), ("DRBI10", 13725), ("DRBI23", 13770), ("DRBJ11B", 13815), ("DRBN30", 13860), ("DRBN32", 13905), ("DRBN34", 13915), ("DRBR51", 13950), ("DRBV20A", 13994), ("DRBV20B", 13995), ("DRBV21Mars05", 14020), ("DRBV22", 14040), ("DRBV23", 14041), ("DRBV26C", 14085), ("DRBV26D", 14086), ("DRBV30", 14130), ("DRBV31", 14131), ("DRBV50", 14175), ("DRBV51", 14220), ("DRBV51A", 14265), ("DRBV51B", 14310), ("DRBV51C", 14355), ("DropKick", 14400), ("DRUA31", 14445), ("DrumTilt", 14490), ("DrumTiltA", 14535), ("DrumTiltB", 14545), ("DRUN30A", 14560), ("Dumbo", 14580), ("DWSR92", 14583), ("DWSR93S", 14585), ("EAGLE", 14586), ("EAGLEMk1", 14587), ("EAJPJammingPod", 14588), ("EKCOE390", 14590), ("ECR90", 14600), ("ECR90Jammer", 14601), ("EggCupAB", 14625), ("EISCAT", 14640), ("EKCOE120", 14660), ("EKCO190", 14670), ("Ekran1", 14677), ("ELL8222", 14710), ("ELL8240", 14713), ("ELM2001B", 14715), ("ELM2022", 14725), ("ELM2032", 14726), ("ELM2052", 14727), ("ELM2055", 14728), ("ELM2060", 14730), ("ELM2075", 14735), ("ELM2022U3", 14736), ("ELM2080", 14737), ("ELM2080S", 14738), ("ELM2085", 14739), ("ELM2106", 14740), ("ELM2106NG", 14741), ("ELM2125", 14742), ("ELM2129", 14743), ("ELM2150", 14744), ("ELM2083", 14745), ("ELM2084", 14746), ("ELM2160V1", 14747), ("ELM2084MMR", 14748), ("ELM2112", 14749), ("ELM2200", 14750), ("ELM2133", 14751), ("ELM2205", 14755), ("ELM2207", 14760), ("ELM2215", 14765), ("ELM2216V", 14770), ("ELM2216XH", 14772), ("ELM2218S", 14775), ("ELT361", 14776), ("ELM2258", 14777), ("ELT553", 14779), ("ELT558", 14780), ("ELT572", 14785), ("ELT715", 14790), ("EltaELM2022A", 14800), ("ELTAELM2221GMSTGR", 14805), ("ELM2228S3D", 14806), ("ELM2705", 14807), ("ELM2226", 14808), ("ELM2228X", 14809), ("ELTASIS", 14810), ("ELM2238", 14811), ("ELM2248", 14815), ("ELM2288", 14820), ("ELM2311", 14821), ("ELM2026", 14822), ("ELNA4007", 14830), ("ELT318", 14831), ("ELW2085", 14832), ("ELT521", 14833), ("ELW2090", 14835), ("EnhancedMeteorDetectionRadarEMDR", 14845), ("EMD2900", 14850), ("EMPAR", 14851), ("EndTray", 14895), ("EQ36", 14896), ("EricssonSLAR", 14897), ("Erieye", 14898), ("ESR1", 14900), ("ESR220", 14901), ("ESR380", 14902), ("ESTEREL", 14903), ("ET316", 14905), ("ExocetType", 14935), ("ExocetAL", 14936), ("Exocet1", 14940), ("Exocet1MH", 14985), ("Exocet2", 15030), ("EyeBowl", 15075), ("EyeShield", 15120), ("F332Z", 15140), ("FalconClawTI", 15155), ("FalconClawTT", 15156), ("FALCON", 15160), ("FALCONG", 15161), ("FalconEye", 15163), ("FanSongA", 15165), ("FanSongBFTA", 15200), ("FanSongBFTT", 15210), ("FanSongCETA", 15220), ("FanSongCETT", 15230), ("FanSongCEMG", 15240), ("FanSongBFFMG", 15255), ("FanTail", 15300), ("FAR2117", 15301), ("FAR2827", 15302), ("FAR2837S", 15303), ("FAR3000", 15304), ("FB7Radar", 15305), ("FCR1401", 15310), ("FCS212E", 15312), ("FCS212G", 15313), ("FCS221A", 15315), ("FCS221C", 15317), ("FCS222", 15318), ("FCS231", 15319), ("FCS3", 15320), ("FinCurve", 15345), ("FireCan", 15390), ("FireDish", 15435), ("FireDomeTA", 15470), ("FireDomeTT", 15475), ("FireDomeTI", 15480), ("FireIron", 15525), ("FireWheel", 15570), ("FishBowl", 15615), ("FK3", 15620), ("FLAIR", 15650), ("FlapLid", 15660), ("_30N6E", 15661), ("FlapTruck", 15705), ("FlapWheel", 15750), ("FlashDance", 15795), ("FlashDanceM", 15800), ("P15", 15840), ("_35N6", 15842), ("FlatScreen", 15885), ("FlatSpin", 15930), ("FlatTrackJammer", 15970), ("FlatTwin", 15975), ("FL400", 15980), ("FL1800", 15985), ("FL1800U", 15990), ("FL1800S", 16000), ("Fledermaus", 16020), ("FLYCATCHER", 16030), ("FLYCATCHERMK2", 16035), ("FlyScreen", 16065), ("FlyScreenAB", 16110), ("FlyTrapB", 16155), ("FM90", 16160), ("FogLampMG", 16200), ("FogLampTT", 16245), ("FoilTwo", 16290), ("FootBall", 16300), ("FoxHunter", 16335), ("FoxFireAL", 16380), ("FoxFireILL", 16390), ("FR151A", 16400), ("FurunoFR1500FR1600", 16405), ("FR1505DA", 16410), ("FR1510DS", 16412), ("FR2000", 16420), ("Furuno2855W", 16421), ("FregatMAE", 16422), ("FregatN1", 16423), ("FregatN2", 16424), ("FrontDome", 16425), ("FregatMAE5", 16426), ("FrontDoor", 16470), ("FrontPiece", 16515), ("FurbymmWMH", 16520), ("Furke", 16550), ("Furke2", 16552), ("Furke4", 16554), ("Furuno", 16560), ("Furuno1721", 16561), ("Furuno1934C", 16564), ("Furuno1715", 16565), ("Furuno1730", 16580), ("Furuno1731Mark3", 16581), ("Furuno1832", 16585), ("Furuno1835", 16587), ("Furuno1932", 16590), ("Furuno1935", 16596), ("Furuno701", 16605), ("Furuno1940", 16606), ("Furuno7112", 16650), ("FurunoFR2130S", 16652), ("FurunoFAR2137S", 16654), ("FurunoFAR28X7", 16655), ("FurunoFAR3230S", 16658), ("FR2110", 16660), ("FR2115", 16662), ("FR8062", 16663), ("Furuno2125", 16670), ("Furuno240", 16690), ("Furuno2400", 16695), ("FR801D", 16725), ("Furuno8051", 16730), ("FurunoDRS2D", 16732), ("FurunoDRS4D", 16733), ("FurunoDRS4A", 16734), ("G030A", 16735), ("FurunoDRS6AXClass", 16736), ("DRS4W", 16737), ("GA0100", 16740), ("Gabbiano", 16750), ("Gage", 16785), ("Gaofen3", 16787), ("GAOFEN12", 16789), ("GAPGATE", 16790), ("Gardenia", 16800), ("GarminGMR1224", 16815), ("GarminFantom24", 16820), ("GarminGWX68WeatherRadar", 16825), ("Garpin", 16830), ("GateGuard", 16833), ("GarpunBalE", 16835), ("GBS1", 16840), ("GCA2000", 16850), ("Furuno18321921Series", 16858), ("GEMINIDB", 16870), ("GEMOlympus", 16871), ("GEMSentinel", 16872), ("GEMBX132", 16875), ("GEMSC2050X", 16876), ("GEMSeaEagle200N", 16877), ("GenericInternalJammer", 16879), ("MPDR12", 16880), ("GENX", 16881), ("GepardTT", 16884), ("GERANF", 16888), ("GERFAUT", 16890), ("GFE1", 16895), ("GIRAFFE", 16900), ("GIRAFFE1X", 16903), ("Giraffe40", 16905), ("Giraffe50AT", 16908), ("Giraffe75", 16912), ("GinSlingTA", 16915), ("GinSling", 16920), ("GinSlingMG", 16925), ("GoalKeeper", 16930), ("GoldenDome", 16935), ("GoldenHeart", 16940), ("GoldenRock", 16942), ("GPN22", 16945), ("GPSJ10", 16946), ("GPSJ25", 16947), ("GPSJ40", 16948), ("GPSJ50", 16949), ("GRN9", 16950), ("GRANK", 16951), ("GraveStone", 16960), ("GRAVES", 16963), ("GreenStain", 16965), ("GridBow", 17010), ("GrifoF", 17016), ("_9S32", 17025), ("GRILLSCREEN", 17027), ("Grom2", 17029), ("GROUNDMASTER400", 17030), ("GT4", 17031), ("GRS440", 17032), ("GUARDIAN", 17050), ("Guardsman", 17055), ("RPK2", 17070), ("HRJZ7264AJammer", 17075), ("H025", 17079), ("HADR", 17080), ("HairNet", 17100), ("HalfPlateA", 17145), ("HalfPlateB", 17190), ("HARD", 17220), ("Harpoon", 17225), ("HatBox", 17230), ("HawkScreech", 17235), ("HayPole", 17250), ("HayRick", 17255), ("HeadLightA", 17280), ("HeadLights", 17325), ("HeadLightsC", 17370), ("HeadLightsMGA", 17415), ("HeadLightsMGB", 17460), ("HeadLightsTT", 17505), ("HeadNet", 17550), ("HeartAcheB", 17572), ("HellfiremmWMH", 17590), ("HenEgg", 17595), ("HenHouse", 17640), ("HenNest", 17685), ("HenRoost", 17730), ("Herakles", 17732), ("HF2MG", 17735), ("HGR105", 17745), ("HighBrick", 17775), ("HighFix", 17820), ("HighGuard", 17842), ("HighLarkTI", 17865), ("HighLark1", 17910), ("HighLark2", 17955), ("HighLark4", 18000), ("HighLune", 18045), ("HighPoleAB", 18090), ("HighScoop", 18135), ("_9S19MT", 18150), ("HighSieve", 18180), ("HillBlock", 18185), ("HimalayasCountermeasuresSuite", 18189), ("HG9550", 18190), ("HJ6374", 18193), ("HLDRADAR900", 18194), ("HLJQ520", 18195), ("HN503", 18200), ("HNC03M", 18201), ("HomeTalk", 18225), ("HornSpoon", 18270), ("HotBrick", 18280), ("HotFlash", 18315), ("HotFlash2", 18316), ("IHS6", 18318), ("IRL144MHotShotTA", 18320), ("IRL144MHotShotTT", 18325), ("IRL144MHotShotMG", 18330), ("HPS106", 18331), ("HPS104", 18332), ("HQ9MH", 18339), ("HSR1128", 18340), ("HT233", 18348), ("HQ61", 18350), ("HRJS", 18351), ("IDerbyER", 18352), ("IBIS80", 18353), ("IBIS150", 18355), ("IBIS200", 18357), ("IFFMKXIIAIMSUPX29", 18360), ("Janet", 18400), ("IFFMKXV", 18405), ("IFFINT", 18406), ("JackKnife", 18407), ("IFFTRSP", 18408), ("JMUSICElbitSystemsJammer", 18409), ("JavelinMG", 18410), ("JALQ8", 18445), ("JFPS7", 18449), ("JayBird", 18450), ("JFPS3", 18451), ("JH10", 18452), ("JMPQP7", 18453), ("JL7", 18454), ("JL10B", 18455), ("JMA1576", 18456), ("JRCJMA92526CA", 18457), ("JLP40", 18458), ("JRCJMR9200SeriesX", 18459), ("JRCNMD401", 18460), ("JRCJRM310MK2", 18461), ("JMA1596", 18462), ("JMA7000", 18464), ("JRCJMA7700", 18465), ("JMA5320", 18466), ("JRCJMR92106XC", 18467), ("JERS1", 18468), ("JINDALEE", 18469), ("JRCJMA9900series", 18470), ("JLP40D", 18471), ("JRCJMA5300series", 18475), ("Jupiter", 18495), ("JupiterII", 18540), ("JY8", 18550), ("JY8A", 18551), ("JY9", 18555), ("JY9Modified", 18556), ("JY11EW", 18557), ("JY14", 18560), ("JY14A", 18561), ("JY16", 18565), ("JY24", 18570), ("JAPG1", 18571), ("JAPG2", 18572), ("JY29", 18575), ("JYL1", 18578), ("JYL6", 18580), ("JYL6A", 18582), ("JZQF612", 18583), ("K376Z", 18585), ("K77M", 18586), ("Kaige", 18600), ("KALKAN", 18610), ("KBPAfganit", 18611), ("KALKANII", 18615), ("KelvinHughes2A", 18630), ("KelvinHughes149", 18675), ("Karpaty", 18700), ("Kashtan3JammingSystem", 18710), ("KelvinHughestype1006", 18720), ("KelvinHughestype1007", 18765), ("KelvinHughesType1007FBand", 18766), ("KelvinHughes2007FBand", 18767), ("KelvinHughes2007IBand", 18768), ("KHNucleus5000", 18770), ("KHMANTA", 18774), ("KHNUCLEUS26000", 18775), ("KHNUCLEUS35000", 18776), ("KHNUCLEUS36000A", 18777), ("KHFamily", 18780), ("KelvinHughes6000A", 18781), ("Kh38MAEMH", 18782), ("KG8605A", 18784), ("KH902M", 18785), ("KHOROMK", 18786), ("KHIBINY", 18787), ("KG300E", 18789), ("KHSharpEye", 18790), ("KHSharpEyeB", 18791), ("KHSharpEyeC", 18792), ("KH1700", 18795), ("KingPin", 18797), ("KG300", 18805), ("KiteScreech", 18810), ("KiteScreechA", 18855), ("KiteScreechB", 18900), ("KLC3B", 18930), ("KJ500NanjingRadar", 18944), ("Kivach", 18945), ("KJ500Jammer", 18946), ("KLC1", 18947), ("KLJ1", 18948), ("KLJ3", 18950), ("KLJ4", 18951), ("KLJ4B", 18952), ("KLJ5", 18955), ("KLJ7", 18960), ("KLJ7B", 18961), ("KLJ7A", 18962), ("KnifeRest", 18990), ("P10", 19035), ("KNIFERESTC", 19037), ("KodenMD3730", 19039), ("KJ2000", 19040), ("KODENMDC900", 19041), ("Koopol", 19042), ("KOPYOI", 19045), ("KR75", 19050), ("KRONOS", 19051), ("KREDO1E", 19052), ("Krasukha2", 19053), ("KRONOSGRANDNAVAL", 19054), ("KRM66E", 19060), ("KSASRN", 19080), ("KSATSR", 19125), ("KS1APHASEDARRAY", 19127), ("KS418", 19129), ("KS418E", 19130), ("KZ100", 19131), ("KZ900", 19132), ("L175V", 19140), ("L3705PresidentSJammer", 19142), ("L415", 19143), ("L88", 19145), ("LAADS", 19150), ("LandFall", 19170), ("LandRollMG", 19215), ("LandRollTA", 19260), ("LandRollTT", 19305), ("LAZUR", 19306), ("Model791A", 19307), ("LAP3000", 19309), ("LC150", 19310), ("LEER3", 19320), ("LegDrive", 19330), ("LeninetzV004", 19340), ("Leningraf", 19350), ("LIANA", 19370), ("LightBulb", 19395), ("LIRAA10", 19396), ("LIROD8", 19397), ("LIRODMKII", 19398), ("LLX05K", 19399), ("LMTNRAI6A", 19400), ("LN55", 19440), ("Ln66", 19485), ("Liman", 19500), ("Liman2", 19505), ("LockheedVigilance", 19520), ("LongBow", 19530), ("LongBrick", 19575), ("LongBull", 19620), ("LongEye", 19665), ("LongHead", 19710), ("LongTalk", 19755), ("LongTrack", 19800), ("LongTrough", 19845), ("LookTwo", 19890), ("LOPAR", 19920), ("LORAN", 19935), ("LowBlowTA", 19950), ("LowBlowTT", 19955), ("LowBlowMG", 19960), ("LowJackTT", 19970), ("LowJackMG", 19971), ("LowSieve", 19980), ("LowTrough", 20025), ("LR66", 20029), ("LRA900", 20030), ("TRS2050", 20040), ("LW01", 20060), ("LW08", 20070), ("M1983FCR", 20090), ("M2240", 20115), ("M44", 20160), ("M401Z", 20205), ("M585Z", 20250), ("M588Z", 20295), ("MA1IFFPortion", 20340), ("MADHACK", 20350), ("MARELD", 20360), ("MAType909", 20385), ("MARCS152", 20420), ("Marconi1810", 20430), ("MarconiCanadaHC75", 20475), ("MarconiS713", 20495), ("MarconiS1802", 20520), ("MarconiS247", 20530), ("MarconiS810", 20565), ("MarconiSA10", 20585), ("MARCONIST801", 20589), ("MarconiST805", 20590), ("Marconitype967", 20610), ("Marconitype968", 20655), ("Marconitype992", 20700), ("Marconisignaaltype1022", 20745), ("Marconisignaaltype910", 20790), ("Marconisignaaltype911", 20835), ("Marconisignaaltype992R", 20880), ("MARTELLO743D", 20890), ("MARTELLOS723A", 20895), ("MASTERA", 20897), ("MBDAFLAADSMJammer", 20898), ("MELCO3", 20915), ("MELODI", 20917), ("MERLIN", 20918), ("Meraj4", 20919), ("NorthropGrummanMESA", 20920), ("MeshBrick", 20925), ("METEOR1500S", 20927), ("METEOR200", 20929), ("METEOR50DX", 20930), ("METEOR300", 20931), ("MeteorBVRAAM", 20933), ("MFR", 20935), ("MFSR210045", 20940), ("MICAMH", 20942), ("MICARF", 20943), ("MineralME", 20945), ("MirageILL", 20950), ("MiysisJammer", 20955), ("MK15", 20969), ("MK15CIWS", 20970), ("MK23", 21015), ("MK23TAS", 21060), ("MK25", 21105), ("Mk25Mod3", 21110), ("Mk25Mod7", 21130), ("MK35M2", 21150), ("MK92", 21195), ("MK92CAS", 21240), ("MK92STIR", 21285), ("MK95", 21330), ("MKS818", 21332), ("MLA1", 21340), ("MMAPQ706", 21359), ("MM950", 21360), ("MMAPS705", 21375), ("MMAPS784", 21390), ("MMSPG73", 21419), ("MMSPG74", 21420), ("MMSPG75", 21465), ("MMSPN703", 21490), ("MMSPN730", 21492), ("MMSPN753B", 21495), ("MMSPQ3", 21500), ("MMSPS702", 21510), ("MMSPS768", 21555), ("MMSPS774", 21600), ("MMSPS791", 21610), ("MMSPS794", 21615), ("MMSPS798", 21620), ("MMSR", 21623), ("Model17C", 21625), ("Moon4", 21645), ("MoonPie", 21646), ("MOONCONE", 21647), ("MoonRack", 21648), ("MOONFACE", 21649), ("MMRS", 21650), ("Model360", 21655), ("Model378", 21660), ("Model970", 21661), ("Model974", 21665), ("MONOLITB", 21672), ("Monument", 21675), ("Mouse", 21680), ("MP411ESM", 21682), ("MPDR18S", 21685), ("MPDR18X", 21690), ("MPDR45E", 21692), ("MR2311", 21693), ("MPR", 21695), ("MR2314", 21696), ("MPS1", 21697), ("MR36B", 21698), ("MR231MOD", 21699), ("MR1600", 21700), ("MRR", 21701), ("MR35", 21702), ("MR36", 21703), ("MRL1", 21704), ("MRL4", 21705), ("MRL5", 21706), ("MSAM", 21707), ("MR36A", 21708), ("MSTAR", 21709), ("MT305X", 21710), ("MR10M1E", 21711), ("MR90", 21712), ("MRK411", 21715), ("MR320MTopazV", 21716), ("MSP418K", 21720), ("MuffCob", 21735), ("Mushroom", 21780), ("Mushroom1", 21825), ("Mushroom2", 21870), ("Mushroom3", 21871), ("N23", 21872), ("N011MBars", 21873), ("N011MBarsB", 21874), ("N011MBarsC", 21875), ("N011MBarsR", 21876), ("N035IrbisE", 21877), ("N036Byelka", 21878), ("N25", 21879), ("N920Z", 21880), ("N001V", 21881), ("NACOSRADARPILOTPlatinum", 21884), ("NampoB", 21885), ("NAGIRA", 21886), ("NanjingB", 21890), ("NanjingC", 21895), ("Nayada", 21915), ("NAYADA5M", 21917), ("NAYADA5PV", 21918), ("NEBOM", 21919), ("NeboSVU", 21920), ("Neptun", 21960), ("Nettuno4100", 21965), ("NIKEHERCULESMTR", 21970), ("NIKETT", 21980), ("NorthropGrummanMFEWJammer", 21981), ("NORINCO3D", 21982), ("NJ81E", 21983), ("Normandie", 21984), ("NRJ6A", 21985), ("NOSTRADAMUS", 21986), ("NPG1240", 21987), ("NPG1460", 21988), ("NPG434", 21989), ("NPG630", 21990), ("NPM510", 21991), ("NutCan", 21992), ("NPVegaLiana", 21995), ("NovellaNV1_70", 22000), ("NRBA50", 22005), ("NRBA51", 22050), ("NRBF20A", 22095), ("NRJ5", 22110), ("NS9005", 22115), ("NS100Series", 22125), ("NUR31", 22127), ("NWS3", 22130), ("NysaB", 22140), ("O524A", 22185), ("O580B", 22230), ("O625Z", 22275), ("O626Z", 22320), ("OceanMaster", 22335), ("OceanMaster400", 22340), ("OddGroup", 22345), ("OddLot", 22365), ("OddPair", 22410), ("OddRods", 22411), ("Oka", 22455), ("OFOGH", 22460), ("OFOGH3", 22463), ("OKEAN", 22500), ("OKEANA", 22505), ("OKINXE12C", 22545), ("OKO", 22560), ("OMEGA", 22590), ("OmeraORB32", 22635), ("OMUL", 22640), ("OneEye", 22680), ("OP28", 22690), ("OPRL4", 22695), ("OPRM71", 22696), ("OPS9", 22697), ("OPS11BC", 22700), ("OPS12", 22701), ("OPS14B", 22705), ("OPS14C", 22706), ("OPS16B", 22725), ("OPS18", 22730), ("OPS19", 22732), ("OPS20", 22735), ("OPS22", 22736), ("OPS24", 22737), ("OPS28", 22740), ("OPS28C", 22745), ("OPS39", 22750), ("OPTIMA3_2", 22760), ("OR2", 22770), ("ORB31D", 22800), ("ORB31S", 22810), ("ORB32", 22815), ("ORB42", 22830), ("OrionRtn10X", 22860), ("SurfaceWave", 22890), ("OtomatMK1", 22900), ("OtomatMKIITeseo", 22905), ("OtomatSeriesAL", 22906), ("OwlScreech", 22950), ("P360Z", 22955), ("P14", 22956), ("P180U", 22957), ("P182", 22959), ("PA1660", 22960), ("P18M", 22961), ("P190U", 22962), ("P30", 22963), ("P18MOD", 22964), ("P35M", 22965), ("PAGE", 22970), ("PaintBox", 22977), ("PalmFrond", 22995), ("ModifiedPaintBox", 22998), ("PalmFrondAB", 23040), ("Pandora", 23041), ("PALSAR2", 23042), ("PantsirSMTAR", 23043), ("PAR2", 23045), ("PAR2000", 23050), ("PAR2090C", 23053), ("PAR80", 23055), ("PatHandTT", 23085), ("PatHandMG", 23095), ("PATRIOT", 23100), ("PattyCake", 23130), ("PawnCake", 23175), ("PBR4Rubin", 23220), ("PCS514", 23240), ("PeaSticks", 23265), ("PechoraSC", 23295), ("PeelCone", 23310), ("PeelGroup", 23355), ("PeelGroupA", 23400), ("PeelGroupB", 23445), ("PeelGroupMG", 23450), ("PeelPair", 23490), ("Pelena", 23500), ("PGZ07", 23515), ("Phalanx", 23525), ("PhazotronGukol4", 23529), ("PhazotronZhukAAE", 23530), ("Philips9LV200", 23535), ("Philips9LV331", 23580), ("PhilipsLV223", 23625), ("PhilipsSeaGiraffe50HC", 23670), ("PhimatJammer", 23675), ("PICOSAR", 23680), ("PILOTMK2", 23685), ("PinJib", 23690), ("PinTip", 23695), ("PL11", 23700), ("PL12", 23701), ("PL15", 23704), ("PlankShad", 23710), ("PlankShave", 23715), ("PlankShaveA", 23760), ("PlankShaveB", 23805), ("PlateSteer", 23850), ("PlesseyAWS1", 23895), ("PlesseyAWS2", 23925), ("PlesseyAWS4", 23940), ("PlesseyAWS6", 23985), ("PlesseyRJ", 23990), ("PlesseyType904", 24020), ("Plesseytype996", 24030), ("PlesseyAWS9", 24035), ("PlinthNet", 24075), ("Pluto", 24095), ("PNABRubinDownBeat", 24098), ("POHJANPALO", 24100), ("PolimentK", 24110), ("POLLUX", 24120), ("PotGroup", 24165), ("PotGroupMG", 24210), ("PotGroupTA", 24255), ("PotGroupTT", 24300), ("PorkFist", 24320), ("PorkTrough", 24345), ("PozitivME15P26", 24385), ("PositiveME1_2", 24386), ("PostBow", 24390), ("PostLamp", 24435), ("PotDrum", 24480), ("PotHead", 24525), ("PotShot", 24535), ("PraetorianCountermeasuresSuite", 24540), ("PRIMUS30A", 24569), ("PRIMUS40WXD", 24570), ("Primus400", 24614), ("PRIMUS300SL", 24615), ("Primus500", 24616), ("Primus650", 24617), ("Primus700", 24618), ("PRIMUS800", 24619), ("Primus3000", 24620), ("Primus870", 24622), ("PRORA", 24630), ("PRS2", 24631), ("PRS3Argon2", 24633), ("PRORAPA1660", 24635), ("PS15", 24640), ("PS05A", 24650), ("PS46A", 24660), ("PS70R", 24705), ("PS171R", 24706), ("PS860", 24707), ("PS870", 24709), ("PS890", 24710), ("PSM33", 24720), ("PuffBall", 24750), ("QuadradarVI", 24755), ("QW1A", 24757), ("Phazotron1RS21E", 24758), ("PVS200", 24760), ("PVS2000", 24761), ("R330ZH", 24768), ("R045", 24769), ("R76", 24770), ("R934B", 24771), ("RA20", 24772), ("RA723", 24774), ("R41XXX", 24775), ("RAC3D", 24776), ("RAC30", 24780), ("R423AM", 24781), ("Racal1229", 24795), ("DECCA1230", 24800), ("RacalAC2690BT", 24840), ("RacalDecca1216", 24885), ("RacalDECCA20V909", 24890), ("RacalDecca360", 24930), ("RacalDeccaAC1290", 24975), ("RacalDeccaTM1229", 25020), ("RacalDeccaTM1626", 25065), ("RacalDRBN34A", 25110), ("RADAMHR", 25150), ("Radar24", 25155), ("RADARPILOT1000", 25170), ("RADARPILOT1100", 25171), ("RAJENDRA", 25180), ("RAN7S", 25200), ("RAN10S", 25205), ("RAN11LX", 25245), ("Rani", 25250), ("RAPHAELTH", 25259), ("RapierTA", 25260), ("Rapier2000TA", 25265), ("RapierMG", 25270), ("RASCAR3400C", 25273), ("Rashmi", 25275), ("Rasit", 25276), ("Rasit3190B", 25277), ("RAT31DLM", 25278), ("RAT31DL", 25279), ("RAT31S", 25280), ("RAT8S", 25281), ("RAT31SL", 25282), ("RavenES05", 25283), ("RATAC", 25285), ("RAWL", 25286), ("Rattler", 25287), ("RAWS", 25288), ("RAWL02", 25289), ("Raytheon1220", 25290), ("RAWS03", 25291), ("Raytheon1210xx", 25292), ("Raytheon1302", 25300), ("Raytheon1500", 25335), ("Raytheon1645", 25380), ("Raytheon1650", 25425), ("Raytheon1900", 25470), ("Raytheon2502", 25515), ("RaytheonAnschutzNautoScanNX", 25530), ("RaytheonR41", 25540), ("RaytheonRM10256X", 25545), ("RaytheonSL72", 25550), ("RaytheonTM16506X", 25560), ("RaytheonTM166012S", 25605), ("RAY1220XR", 25630), ("RAY1401", 25635), ("Ray2900", 25650), ("RaymarineRD218", 25694), ("Raypath", 25695), ("RaytheonPathfinderSTmk2", 25698), ("RBE2", 25735), ("RBE2AA", 25736), ("RCT180", 25739), ("RDM", 25740), ("RDM3", 25745), ("RDI", 25750), ("RDY", 25760), ("RDY3", 25762), ("RDS86", 25770), ("RDN72", 25785), ("RDR1A", 25830), ("RDR1E", 25835), ("RDR4A", 25840), ("RDR150", 25845), ("RDR160XD", 25850), ("RDR230HP", 25853), ("RDR1100", 25855), ("RDR1150", 25860), ("RDR1200", 25875), ("RDR1400", 25885), ("RDR1400C", 25890), ("RDR4000_1", 25891), ("RDR4000_2", 25892), ("RDR1500", 25895), ("RiceCake", 25896), ("RDR1600", 25897), ("RDR2000", 25898), ("RDR1700B", 25899), ("Remora", 25900), ("RiceField", 25901), ("REC1A", 25902), ("REC1B", 25903), ("REC1C", 25904), ("ResolveEAS", 25906), ("RiceCupC", 25907), ("REL6E", 25908), ("REC1", 25909), ("RiceBowl", 25910), ("ImprovedReporter", 25911), ("RiceBug", 25912), ("RiceCup", 25915), ("RiceLamp", 25920), ("REVATHI", 25940), ("REZONANS", 25950), ("RGMUGM109B", 25955), ("RGMUGM109EHomingRadar", 25958), ("RicePad", 25965), ("RKL526", 25966), ("RKZ764", 25967), ("RKZ766", 25968), ("RKL165", 25969), ("RKL609", 25970), ("RKL800", 25971), ("RKZ761", 25972), ("RKZ2000", 25973), ("RIS4CA", 25974), ("RL2000", 25975), ("RL41", 25976), ("RIR778", 25977), ("RISAT", 25978), ("RLMS", 25979), ("RimHatESMECMSuite", 25980), ("RiceScoop", 26008), ("RiceScreen", 26010), ("DECCATM1070A", 26011), ("RM370BT", 26015), ("RockwellCollinsFMR200X", 26020), ("RM2312", 26040), ("RM23123", 26041), ("RMT0100A", 26043), ("RN222", 26045), ("ROLAND2", 26053), ("ROLANDBN", 26055), ("ROLANDMG", 26100), ("ROLANDTA", 26145), ("ROLANDTT", 26190), ("ROTODOME", 26210), ("RoundBall", 26235), ("RP379DTiradaD", 26236), ("RP3", 26237), ("RP4G", 26238), ("RoundHouse", 26280), ("RoundHouseB", 26325), ("RPR117", 26326), ("RS0250", 26327), ("RSR210N", 26328), ("RT0250", 26330), ("RTA4100", 26340), ("RTN1A", 26350), ("RTN25X", 26353), ("RTS6400", 26354), ("RubyRake", 26355), ("RumSling", 26360), ("RumSlingRO", 26361), ("RumSlingTT", 26362), ("RV2", 26370), ("RV3", 26415), ("RV5", 26460), ("RV10", 26505), ("RV15M", 26506), ("RV17", 26550), ("RV18", 26595), ("RV21", 26596), ("RV21B", 26597), ("RV25", 26600), ("RV377", 26610), ("RVUM", 26640), ("RWD8", 26650), ("RXN260", 26660), ("RyeHouse", 26665), ("S1810CD", 26670), ("Sahab", 26672), ("Salamandre", 26673), ("SamyungSMR7200", 26674), ("S1850M", 26675), ("S511", 26676), ("S512", 26677), ("S600", 26678), ("S604", 26679), ("S763LANZA3D", 26680), ("S613", 26681), ("S631", 26682), ("S654", 26683), ("S669", 26684), ("SA2Guideline", 26685), ("S244", 26686), ("S711", 26687), ("SA3Goa", 26730), ("SA8GeckoDT", 26775), ("SA12TELARILL", 26795), ("SA23TELIlluminator", 26797), ("SABERM60", 26799), ("Samovar", 26805), ("Sampson", 26810), ("SAN7GadflyTI", 26820), ("SAN11Cads1UN", 26865), ("SaccadeMH", 26900), ("SaltPotAB", 26910), ("SAP14", 26920), ("SAP518", 26925), ("SAP518M", 26926), ("SandBar", 26930), ("SAPechora2MTT", 26935), ("SAR", 26945), ("SATRAPE", 26950), ("SATURNEII", 26955), ("ScanCan", 27000), ("ScanFix", 27045), ("ScanOdd", 27090), ("SCANTER1002", 27095), ("SCANTER2001", 27100), ("SCANTER2002", 27101), ("SCANTER2100", 27102), ("SCANTER4002", 27109), ("SCANTER4100", 27110), ("SCANTER5102", 27111), ("SCANTER5502", 27113), ("SCANTER6000", 27115), ("SCANTER6002", 27116), ("ScanterMil009", 27125), ("ScanThree", 27135), ("SCANTERMILS", 27137), ("ScanterSMR", 27139), ("SCANTER", 27140), ("SCORADS", 27141), ("Scimitar", 27142), ("STAR2000", 27143), ("SCOREBOARD", 27150), ("ScoopPair", 27175), ("ScoupPlate", 27180), ("SCOUT", 27183), ("SCR584", 27190), ("SeaArcher2", 27225), ("SeaBasedXBand", 27230), ("SeaDragon", 27235), ("SeaEagle", 27239), ("SeaEagleSC", 27240), ("SEAFALCON", 27245), ("SeaGiraffeAMB", 27248), ("Seaguard", 27251), ("SeaHawkSHNX12", 27260), ("SeaHunter4MG", 27270), ("SeaHunter4TA", 27315), ("SeaHunter4TT", 27360), ("SeaGull", 27405), ("SeaMaster400", 27430), ("SeaNet", 27450), ("SeaSparrow", 27451), ("SeaSpray", 27495), ("SeaTiger", 27540), ("SeaTigerM", 27550), ("Seastar", 27560), ("Searchwater", 27570), ("Searchwater2000", 27575), ("SEASONDE", 27580), ("SEASPRAY7000E", 27582), ("SeaVue", 27583), ("SeasprayMk3", 27584), ("SeleniaOrion7", 27585), ("Seleniatype912", 27630), ("SelenniaRAN12LX", 27675), ("SeleniaRAN20S", 27680), ("SelenniaRTN10X", 27720), ("SeliniaARP1645", 27765), ("SENTIRM20", 27770), ("SERDAR", 27771), ("SERHAT", 27773), ("Series10CompactSubmarineRadarCSR", 27775), ("SERIES52", 27780), ("SERIES320", 27790), ("SG", 27800), ("SGJ02", 27802), ("SGJ03", 27803), ("SGR10200", 27810), ("SGR10302", 27855), ("SGR104", 27870), ("Shahed129SAR", 27873), ("SHAHINE", 27875), ("SheetBend", 27900), ("SheetCurve", 27945), ("SHIKRA", 27980), ("ShipGlobe", 27990), ("ShipWheel", 28035), ("SGR114", 28080), ("ShoreWalkA", 28125), ("ShortHorn", 28170), ("ShotDome", 28215), ("SideGlobeJN", 28260), ("PRV11", 28280), ("SideWalkA", 28305), ("SignaalDA02", 28350), ("SignaalDA05", 28395), ("SignaalDA08", 28440), ("SignaalDA082LS", 28445), ("SignaalLW04", 28480), ("SignaalLW08", 28485), ("SignaalLWOR", 28530), ("SignaalM45", 28575), ("SignaalMW08", 28620), ("SignaalSMART", 28665), ("SignaalSTING", 28710), ("SignaalSTIR", 28755), ("SignaalSTIR1_8M", 28760), ("SignaalSTIR24M", 28770), ("SignaalWM202", 28800), ("SignaalWM25", 28845), ("SignaalWM27", 28890), ("SignaalWM28", 28935), ("SignaalZW01", 28980), ("SignaalZW06", 29025), ("SignaalZW07", 29030), ("SignaalZW0800", 29035), ("SIMRAD3G", 29043), ("SIMRAD4G", 29045), ("SimradCA54", 29050), ("SIMRADHalo6", 29060), ("SkiPole", 29070), ("SkinHead", 29115), ("SkipSpin", 29160), ("SKYFENDER", 29172), ("SkyWave", 29175), ("SkyguardB", 29180), ("SKYGUARDTA", 29185), ("SKYGUARDTT", 29190), ("SkyguardLR", 29191), ("Skymaster", 29200), ("SkyWatch", 29205), ("SkyRanger", 29210), ("SKYSHADOW", 29215), ("SKYSHIELDTA", 29220), ("SL", 29250), ("SLALQ234", 29270), ("SlapShot", 29295), ("SlapShotG", 29297), ("SLC2", 29300), ("SLC2E", 29301), ("SLC4", 29305), ("SlimNet", 29340), ("SlotBackA", 29385), ("SlotBackILL", 29400), ("SlotBackB", 29430), ("SlotBackIV", 29431), ("SlotBackBTopaz", 29432), ("SlotBackE", 29433), ("SlotBackG", 29434), ("SlotBackVI", 29435), ("SlotRest", 29440), ("SM674AUPM", 29450), ("SMA3RM", 29475), ("SMA3RM20", 29520), ("SMA3RM20ASMG", 29565), ("SMABPS704", 29610), ("SMASPIN749V2", 29655), ("SMASPN703", 29700), ("SMASPN751", 29745), ("SMASPOS748", 29790), ("SMASPQ2", 29835), ("SMASPQ2D", 29880), ("SMASPQ701", 29925), ("SMASPS702", 29970), ("SMAST2OTOMATIIMH", 30015), ("SR47A", 30016), ("SMA718Beacon", 30060), ("SmallFred", 30065), ("SMARTS", 30068), ("SMARTSMk2", 30069), ("SMARTL", 30070), ("SM932", 30072), ("SmogLamp", 30075), ("SnapShot", 30080), ("SnoopDrift", 30105), ("SnoopHalf", 30140), ("SnoopHead", 30150), ("SnoopPair", 30195), ("SnoopPing1", 30200), ("SnoopPlate", 30240), ("SnoopPing", 30255), ("SnoopSlab", 30285), ("SnoopTray", 30330), ("SnoopTray1", 30375), ("SnoopTray2", 30420), ("SNOOPTRAY3", 30421), ("SnoopWatch", 30465), ("_9S18M1", 30470), ("_9S18M1E", 30471), ("SPB7", 30475), ("SnowDrop", 30480), ("SNW10", 30490), ("SO1", 30510), ("SO12", 30520), ("SOACommunist", 30555), ("SO69", 30580), ("SockEye", 30600), ("SOM64", 30645), ("Sopka", 30650), ("Sorbsiya", 30660), ("SorbtsiyaL005", 30661), ("SorbtsiyaL005S", 30662), ("SPADASIR", 30665), ("SPADATT", 30670), ("SparrowILL", 30690), ("SPERRYRASCAR", 30691), ("SPECTRA", 30692), ("SPEAR3MMW", 30696), ("SperryM3", 30700), ("SPERRYVISIONMASTERFT", 30701), ("SPEXER2000", 30710), ("SPG53F", 30735), ("SPG70", 30780), ("SPG74", 30825), ("SPG75", 30870), ("SPG76", 30915), ("SpinScanA", 30960), ("SpinScanB", 31005), ("SpinTrough", 31050), ("SPINODADDAWTR", 31070), ("SPJ40", 31080), ("SplashDrop", 31095), ("SPN2", 31096), ("SPN4", 31097), ("SPN30", 31100), ("SPN35A", 31140), ("SPN41", 31185), ("SPN42", 31230), ("SPN43A", 31275), ("SPN43B", 31320), ("SPN44", 31365), ("SPN46", 31410), ("SPN703", 31455), ("SPN720", 31475), ("SPN7281", 31500), ("SPN748", 31545), ("SPN750", 31590), ("SPO8", 31592), ("SPN753G", 31593), ("SpongeCake", 31635), ("P12", 31680), ("P18SpoonRestA", 31681), ("P18SpoonRestB", 31682), ("P18SpoonRestC", 31684), ("P18MH2", 31685), ("SporkRest", 31700), ("SPQ712", 31725), ("SPR2", 31730), ("SPR51", 31740), ("SPS5FASOL", 31765), ("SPS6", 31766), ("SPS6C", 31770), ("SPS10F", 31815), ("SPS12", 31860), ("SPS22NBUKET", 31870), ("SPS33NBUKET", 31875), ("SPS44NBUKET", 31880), ("SPS55NBUKET", 31890), ("SPS58", 31905), ("SPS62", 31925), ("SPS100K", 31935), ("SPS64", 31950), ("SPS141", 31951), ("SPS142", 31952), ("SPS143", 31953), ("SPS151", 31955), ("SPS152", 31956), ("SPS153", 31957), ("SPS160Geran", 31959), ("SPS161", 31960), ("SPS95K", 31970), ("SPS171Jammer", 31971), ("SPS172Jammer", 31972), ("SPS768", 31995), ("SPS540K", 32010), ("SPS550KMF", 32020), ("SPS774", 32040), ("SPY790", 32085), ("SquareHead", 32130), ("SquarePair", 32175), ("SquareSlot", 32220), ("SquareTie", 32265), ("Shmel", 32310), ("P15M", 32330), ("SquintEye", 32355), ("SQUIRE", 32365), ("SR2410C", 32373), ("SR47BG", 32375), ("SREM5", 32385), ("SRN6", 32400), ("SRN15", 32445), ("SRN206", 32455), ("SRN745", 32490), ("SRO1", 32535), ("SRO2", 32580), ("SSC2BSamletMG", 32625), ("SSN2ABCSSC", 32670), ("SSN2ABCSSC2A3A2MH", 32715), ("SSN2CSeeker", 32760), ("SSN2CDStyx", 32805), ("SSN2CDStyxCDMH", 32850), ("SSN2CStyxAL", 32851), ("SSN2DStyxAL", 32852), ("SSN2SSCSSC18BN", 32895), ("SSN3BSepalAL", 32940), ("SSN3BSepalMH", 32985), ("SSN7Starbright", 33025), ("SSN9Siren", 33030), ("SSN9SirenAL", 33075), ("SSN9SirenMH", 33120), ("SSN10AFL10mmWMH", 33125), ("SSN11Nasr1mmWMH", 33140), ("SSN12SandboxAL", 33165), ("SSN12YJ83JmmWMH", 33166), ("SSN12SandboxMH", 33210), ("SSNX13Shredder", 33230), ("SSN14BSilexAL", 33231), ("SSN19Shipwreck", 33255), ("SSN19ShipwreckAL", 33300), ("SSN19ShipwreckMH", 33345), ("SSN21AL", 33390), ("SSN22Sunburn", 33435), ("SSN22SunburnMH", 33480), ("SSN22SunburnAL", 33481), ("SSN25SwitchbladeMH", 33483), ("SSN26StrobileMMWMH", 33484), ("SSN27SizzlerMH", 33485), ("SSN27ASizzlerAL", 33486), ("STINGEOMk2", 33505), ("STIR1_2EOMk2", 33510), ("STIR2_4HPMk2", 33511), ("StoneCake", 33525), ("STR41", 33570), ("ST858", 33580), ("START1M", 33582), ("STENTOR", 33584), ("StormShadowAHR", 33585), ("STRAIGHTFLUSH", 33586), ("StraightFlushTA", 33590), ("StraightFlushTT", 33595), ("StraightFlushILL", 33600), ("StrikeOut", 33615), ("StrutCurve", 33660), ("StrutPair", 33705), ("StrutPair1", 33750), ("StrutPair2", 33795), ("SunVisor", 33840), ("SUPERDARN", 33850), ("Superfledermaus", 33860), ("Supersearcher", 33870), ("SwiftRod1", 33885), ("SwiftRod2", 33930), ("SYMPHONY", 33933), ("SYNAPSISMk2", 33935), ("SY80", 33950), ("T1166", 33975), ("T1171", 34020), ("T1202", 34040), ("T6004", 34065), ("T6031", 34110), ("T8067", 34155), ("T8068", 34200), ("T8124", 34245), ("T8408", 34290), ("T8911", 34335), ("T8937", 34380), ("T8944", 34425), ("T8987", 34470), ("TA10K", 34480), ("JY11B", 34500), ("TACANSURF", 34505), ("P14_2", 34515), ("TALLKINGB", 34516), ("TALLKINGC", 34517), ("TallMike", 34560), ("TallPath", 34605), ("TDR94", 34607), ("TeaSpoon", 34610), ("TeamPlay", 34620), ("TALISMAN", 34624), ("TeamWork", 34625), ("T1135", 34626), ("TANCANSURF", 34627), ("TECSAR", 34628), ("TERRASARX", 34629), ("TESAR", 34630), ("THAADGBR", 34640), ("ThalesRDY2", 34644), ("ThalesNederlandSignaalAPAR", 34645), ("ThalesScorpionJammer", 34646), ("ThalesVariant", 34647), ("ThalesICMSJammer", 34648), ("ThalesIMEWSJammer", 34649), ("THD225", 34650), ("THD1012", 34655), ("THD1098", 34660), ("THD1213", 34665), ("THD1940", 34670), ("THD1955Palmier", 34680), ("THD5500", 34695), ("ThirdofKhordad", 34700), ("ThinPath", 34740), ("PRV9", 34785), ("PRV16", 34786), ("ThompsonCSFTA10", 34795), ("ThompsonCSFTHD1040Neptune", 34830), ("ThompsonCSFCalypso", 34875), ("ThompsonCSFCASTOR", 34920), ("ThompsonCSFCastorII", 34965), ("ThomsonCSFDomino30", 34966), ("ThompsonCSFDRBC32A", 35010), ("ThompsonCSFDRBJ11DE", 35055), ("ThompsonCSFDRBV15A", 35100), ("ThompsonCSFDRBV15C", 35145), ("ThompsonCSFDRBV22D", 35190), ("ThompsonCSFDRBV23B", 35235), ("ThompsonCSFDRUA33", 35280), ("ThompsonCSFMarsDRVB21A", 35325), ("ThompsonCSFSeaTiger", 35370), ("ThompsonCSFTriton", 35415), ("ThompsonCSFVegawithDRBC32E", 35460), ("ThomsonENR", 35470), ("ThomsonRDI", 35475), ("TierIIPlus", 35477), ("TPS755", 35478), ("TPS830K", 35479), ("TRS2105", 35480), ("TR23K", 35481), ("TR23MR", 35482), ("TRAC2100", 35483), ("TRAC2300", 35484), ("HT223", 35485), ("TRADEX", 35486), ("TRAILXI", 35487), ("TRD1211", 35488), ("TRD1235", 35489), ("TRS2100", 35490), ("TRACNG", 35491), ("TieRods", 35505), ("_36D6", 35550), ("TinTrap", 35570), ("TIRSPONDER", 35580), ("TK25E5", 35583), ("TMKMk2", 35585), ("TMXMk2", 35586), ("ToadStool1", 35595), ("ToadStool2", 35640), ("ToadStool3", 35685), ("ToadStool4", 35730), ("ToadStool5", 35775), ("TokenB", 35785), ("TombStone", 35800), ("Tonson", 35810), ("TopBow", 35820), ("TopDome", 35865), ("TopKnot", 35910), ("TopMesh", 35955), ("TopPair", 36000), ("TopPlate", 36045), ("TopPlateB", 36046), ("TopSail", 36090), ("TYPE208", 36120), ("TopSteer", 36135), ("TopTrough", 36180), ("TornadoGMR", 36200), ("TornadoTFR", 36201), ("ScrumHalfTA", 36220), ("ScrumHalfTT", 36225), ("TORM2TER", 36226), ("ScrumHalfMG", 36230), ("TrackDish", 36270), ("TR47C", 36300), ("TORSOM", 36315), ("TQN2", 36320), ("TrapDoor", 36360), ("TRD1500", 36365), ("TrickShotTAR", 36370), ("TrickShotTER", 36371), ("TRISPONDE", 36380), ("TRML", 36381), ("TRS2215", 36382), ("TRML3D", 36383), ("TRMS", 36384), ("TRS2056", 36385), ("TRS3010", 36386), ("TRS2060", 36387), ("TRS2245", 36388), ("TRS2310", 36389), ("TritonG", 36390), ("TRS22XX", 36391), ("TRS3030", 36400), ("TRS3033", 36405), ("TRS3203", 36417), ("TRS3405", 36420), ("TRS3410", 36425), ("TRS3415", 36430), ("TRS3D", 36440), ("TRS3D16", 36441), ("TRS3D16ES", 36442), ("TRS3D32", 36443), ("TRS4D", 36446), ("TRSC", 36447), ("TRSN", 36450), ("TS4478A", 36460), ("TSE5000", 36495), ("TSR333", 36540), ("TSR793", 36550), ("TubBrick", 36563), ("TubeArm", 36585), ("TW1374", 36590), ("TW1378", 36595), ("TW1446", 36600), ("TwinEyes", 36630), ("TwinPill", 36675), ("TwinScan", 36720), ("TwinScanRo", 36765), ("TwoSpot", 36810), ("Type071LPD", 36821), ("Type212JA", 36827), ("Type221JA", 36830), ("Type223", 36835), ("Type80ASM1", 36836), ("Type120", 36838), ("Type208", 36840), ("Type222", 36843), ("Type226", 36846), ("Type232H", 36850), ("TYPE245", 36853), ("TYPE262", 36855), ("TYPE275", 36900), ("TYPE278", 36905), ("TYPE293", 36945), ("Type341", 36946), ("TYPE313", 36947), ("Type305A", 36948), ("Type334", 36960), ("Type342", 36985), ("TYPE343SUNVISORB", 36990), ("Type344", 36992), ("Type345", 37010), ("Type346", 37011), ("Type349A", 37033), ("TYPE347B", 37035), ("Type347G", 37038), ("Type359", 37039), ("Type352", 37040), ("Type360", 37041), ("Type362ESR1SR47B", 37043), ("Type354", 37045), ("Type366", 37047), ("Type363", 37048), ("Type364", 37049), ("Type404A", 37050), ("Type405", 37052), ("TYPE405J", 37053), ("Type408D", 37058), ("Type517B", 37059), ("Type518", 37060), ("Type589", 37070), ("TYPE651", 37073), ("Type753_1", 37075), ("Type702", 37077), ("Type704", 37078), ("Type753_2", 37079), ("Type756", 37080), ("TYPE713", 37081), ("TYPE714", 37082), ("TYPE702D", 37083), ("TYPE760", 37084), ("Type760", 37086), ("Type815", 37090), ("Type793", 37095), ("Type8A813", 37100), ("TYPE901M", 37105), ("TYPE902", 37110), ("Type902B", 37124), ("TYPE903", 37125), ("TYPE909TI", 37170), ("TYPE909TT", 37215), ("TYPE910", 37260), ("TYPE931", 37265), ("TYPE965", 37305), ("TYPE967", 37350), ("TYPE968", 37395), ("TYPE974", 37440), ("TYPE975", 37485), ("TYPE978", 37530), ("Type981", 37534), ("Type9813", 37535), ("TYPE982", 37540), ("Type984", 37543), ("Type985", 37544), ("TYPE992", 37575), ("TYPE993", 37620), ("TYPE994", 37665), ("Type996", 37670), ("Type997Artisan", 37675), ("TYPE1006_1", 37710), ("TYPE1006_2", 37755), ("TYPE1022", 37800), ("Type1047", 37810), ("Type1048", 37815), ("Type1474", 37825), ("Type1493", 37828), ("ULTRA", 37840), ("UKMK10", 37845), ("UPS220C", 37850), ("UPX110", 37890), ("UPX27", 37935), ("URN20", 37980), ("UTESA", 37985), ("UTEST", 37990), ("URN25", 38025), ("VIGILANT", 38035), ("VitebskL370Jammer", 38038), ("VOLEXIIIIV", 38045), ("VOLGA", 38046), ("VORONEZHDM", 38047), ("VOSTOK", 38048), ("VOSTOKE", 38049), ("VSR", 38050), ("VOSTOK3D", 38051), ("VSTARPT", 38055), ("W160", 38058), ("W1028", 38060), ("W8818", 38070), ("W8838", 38115), ("W8852", 38120), ("WALLBOARD", 38140), ("WallRust", 38150), ("WAS74S", 38160), ("WaspHead", 38205), ("WATCHDOG", 38210), ("WatchGuard", 38250), ("Watchman", 38260), ("WAVESTORM", 38270), ("WATCHMANS", 38275), ("WATCHMANT", 38276), ("WEATHERSCOUT2", 38280), ("WesternElectricMK10", 38295), ("WestinghouseADR4LRSR", 38320), ("WestinghouseElectricSPG50", 38340), ("WestinghouseElectricW120", 38385), ("WestinghouseSPS29C", 38430), ("WestinghouseSPS37", 38475), ("WetEye", 38520), ("WetEye2", 38525), ("WetEyeMod", 38565), ("WF44S", 38568), ("WGU41B", 38570), ("WGU44B", 38572), ("Whiff", 38610), ("WhiffBrick", 38655), ("WhiffFire", 38700), ("WHITEHOUSE", 38715), ("WideMat", 38730), ("WineGlassJammer", 38735), ("WildCard", 38745), ("WILDCAT", 38748), ("WitchEight", 38790), ("WitchFive", 38835), ("WLR", 38840), ("WM2XSeries", 38880), ("WM2XSeriesCAS", 38925), ("WR10X", 38930), ("WR2100", 38935), ("WSR74C", 38950), ("WSR74S", 38955), ("WSR81", 38957), ("WXR700C", 38960), ("WXR2100", 38965), ("WXR2100MSTT", 38966), ("WoodGage", 38970), ("XTAR25", 38990), ("XTAR3D", 38995), ("YAOGAN3", 39000), ("Yaogan29", 39014), ("YardRake", 39015), ("YH96", 39050), ("YewLoop", 39060), ("YITIANADS", 39061), ("YD3", 39062), ("YJ12MH", 39063), ("YJ62MH", 39065), ("YJ82MH", 39066), ("YJ83MH", 39067), ("YLC2", 39070), ("YLC2A", 39071), ("YLC4", 39073), ("YLC6", 39074), ("YLC6M", 39075), ("YLC8", 39080), ("YLC8B", 39081), ("YLC18", 39085), ("YoYo", 39105), ("ZaslonA", 39110), ("ZaslonMultipurpose", 39112), ("ZooPark1", 39125), ("ZPS6", 39126), ("ZOOPARK3", 39127), ("ZD12", 39131), ("ZW06", 39150), ("ANALQ1361", 39200), ("ANALQ1362", 39201), ("ANALQ1363", 39202), ("ANALQ1364", 39203), ("ANALQ1365", 39204), ("ANALQ1622", 39210), ("ANALQ1623", 39211), ("ANALQ1624", 39212), ("ZhukM", 45300), ("ZHUKMAE", 45303), ("ZHUKME", 45304), ("ZHUKMME", 45305), ("ZhukMSE", 45307)], actual: || vec![EmitterName::_12456X as u64, EmitterName::_1L117 as u64, EmitterName::_1L121E as u64, EmitterName::_1L250 as u64, EmitterName::_1L220U as u64, EmitterName::_1L1221E as u64, EmitterName::_1RL257 as u64, EmitterName::_1RL138 as u64, EmitterName::_1RL257Jammer as u64, EmitterName::_5N20 as u64, EmitterName::_5H62B as u64, EmitterName::_5P10 as u64, EmitterName::_5P10E as u64, EmitterName::_5P1001 as u64, EmitterName::_5P1001E as u64, EmitterName::_5P1002 as u64, EmitterName::_5P1002E as u64, EmitterName::_5P1003 as u64, EmitterName::_5P1003E as u64, EmitterName::_5P10EMOD as u64, EmitterName::_621A3 as u64, EmitterName::_860F1AL101 as u64, EmitterName::_9B1103M2 as u64, EmitterName::_1226DECCAMIL as u64, EmitterName::_9B1348 as u64, EmitterName::_3KM6 as u64, EmitterName::_9KR400 as u64, EmitterName::_50N6A as u64, EmitterName::_55G61 as u64, EmitterName::_59N6 as u64, EmitterName::_5N69 as u64, EmitterName::_67N6 as u64, EmitterName::_76T6 as u64, EmitterName::_77T6ABM as u64, EmitterName::_80K6 as u64, EmitterName::_91N6A as u64, EmitterName::_96L6E as u64, EmitterName::_96L6TsP as u64, EmitterName::_9C18M3 as u64, EmitterName::_9C36M as u64, EmitterName::_9GR400 as u64, EmitterName::_9GR400A as u64, EmitterName::_9GR600 as u64, EmitterName::_9GR606 as u64, EmitterName::_9LV100 as u64, EmitterName::_9LV200TA as u64, EmitterName::_9LV200TV as u64, EmitterName::_9LV200TT as u64, EmitterName::_9LV200MKIII as u64, EmitterName::_9LV326 as u64, EmitterName::_9M96E2Seeker as u64, EmitterName::_9S15M2 as u64, EmitterName::_9S19M2 as u64, EmitterName::_9S19ME as u64, EmitterName::_9S32M as u64, EmitterName::_9S32ME as u64, EmitterName::_9S36E as u64, EmitterName::_9S112 as u64, EmitterName::A310Z as u64, EmitterName::A325A as u64, EmitterName::A346Z as u64, EmitterName::A353B as u64, EmitterName::A372A as u64, EmitterName::A372B as u64, EmitterName::A372C as u64, EmitterName::A377A as u64, EmitterName::A377B as u64, EmitterName::A380Z as u64, EmitterName::A381Z as u64, EmitterName::A398Z as u64, EmitterName::A403Z as u64, EmitterName::A409A as u64, EmitterName::A418A as u64, EmitterName::A419Z as u64, EmitterName::A429Z as u64, EmitterName::A432Z as u64, EmitterName::A434Z as u64, EmitterName::AA6CAcrid as u64, EmitterName::AA7CApex as u64, EmitterName::A401A as u64, EmitterName::AA10A as u64, EmitterName::AA10CAlamoC as u64, EmitterName::AA13ArrowSeeker as u64, EmitterName::AAM4BMH as u64, EmitterName::AA300 as u64, EmitterName::AA12Seeker as u64, EmitterName::AD4A as u64, EmitterName::ADES as u64, EmitterName::ADS4LRSR as u64, EmitterName::ACR430 as u64, EmitterName::Agave as u64, EmitterName::ACSOPRIE as u64, EmitterName::ABD2000 as u64, EmitterName::ADACMK1 as u64, EmitterName::ADACMK2 as u64, EmitterName::ADAR as u64, EmitterName::ADOUR as u64, EmitterName::AGAT9B1348 as u64, EmitterName::AdrosKT01AV as u64, EmitterName::Agat9E420 as u64, EmitterName::AGM158JASSMSAR as u64, EmitterName::AGM88HARMMMW as u64, EmitterName::AGRION15 as u64, EmitterName::AHV7 as u64, EmitterName::AHV17 as u64, EmitterName::AIMK23 as u64, EmitterName::AIDAII as u64, EmitterName::AIM120A as u64, EmitterName::AIM7MSparrow as u64, EmitterName::_1L271 as u64, EmitterName::ALA51 as u64, EmitterName::AlbatrosMK2 as u64, EmitterName::ALT50 as u64, EmitterName::ALTAIR as u64, EmitterName::AMAPS717 as u64, EmitterName::AMES13MK1 as u64, EmitterName::WGU16B as u64, EmitterName::_1L133BoxSpring as u64, EmitterName::_1L133BoxSpringB as u64, EmitterName::AMDR3D as u64, EmitterName::ANASPS502 as u64, EmitterName::Anemone as u64, EmitterName::ANRITSUElectricAR30A as u64, EmitterName::AntilopeV as u64, EmitterName::ANAAQ24 as u64, EmitterName::ANADM160 as u64, EmitterName::AN_ALE50 as u64, EmitterName::AN_ALQ76 as u64, EmitterName::AN_ALQ99 as u64, EmitterName::AN_ALQ99Band4 as u64, EmitterName::AN_ALQ99LBT as u64, EmitterName::AN_ALQ100 as u64, EmitterName::AN_ALQ101 as u64, EmitterName::AN_ALQ119 as u64, EmitterName::AN_ALQ122 as u64, EmitterName::AN_ALQ126A as u64, EmitterName::AN_ALQ128 as u64, EmitterName::AN_ALQ126B as u64, EmitterName::AN_ALQ131 as u64, EmitterName::AN_ALQ131BlkII as u64, EmitterName::AN_ALQ135CD as u64, EmitterName::AN_ALQ144A3 as u64, EmitterName::AN_ALQ153 as u64, EmitterName::AN_ALQ157Jammer as u64, EmitterName::AN_ALQ155 as u64, EmitterName::AN_ALQ156 as u64, EmitterName::AN_ALQ161A as u64, EmitterName::AN_ALQ161 as u64, EmitterName::AN_ALQ162 as u64, EmitterName::AN_ALQ164 as u64, EmitterName::AN_ALQ165 as u64, EmitterName::AN_ALQ187Jammer as u64, EmitterName::AN_ALQ167 as u64, EmitterName::AN_ALQ1721 as u64, EmitterName::AN_ALQ1722 as u64, EmitterName::AN_ALQ1723 as u64, EmitterName::AN_ALQ176 as u64, EmitterName::AN_ALQ178 as u64, EmitterName::AN_ALQ184 as u64, EmitterName::AN_ALQ1849 as u64, EmitterName::AN_ALQ188 as u64, EmitterName::AN_ALQ214 as u64, EmitterName::AN_ALR56 as u64, EmitterName::AN_ALQ221 as u64, EmitterName::AN_ALR69 as u64, EmitterName::AN_ALQ211 as u64, EmitterName::AN_ALT16A as u64, EmitterName::AN_ALQ173 as u64, EmitterName::AN_ALT28 as u64, EmitterName::AN_ALR66BJammer as u64, EmitterName::AN_ALT32A as u64, EmitterName::AN_ALQ196 as u64, EmitterName::ALQ249NextGenerationJammer as u64, EmitterName::AN_ALQ2401Jammer as u64, EmitterName::AN_ALR66BJammer2 as u64, EmitterName::AN_APD10 as u64, EmitterName::AN_ALQ213 as u64, EmitterName::ALQ214A45Jammer as u64, EmitterName::AN_ALQ218 as u64, EmitterName::ANAPG50 as u64, EmitterName::ANAPG53 as u64, EmitterName::ANAPG59 as u64, EmitterName::ANAPG63 as u64, EmitterName::ANAPG631 as u64, EmitterName::ANAPG632 as u64, EmitterName::ANAPG633 as u64, EmitterName::ANAPG65 as u64, EmitterName::ANAPG66 as u64, EmitterName::ANAPG66V as u64, EmitterName::ANAPG66V2 as u64, EmitterName::ANAPG67 as u64, EmitterName::ANAPG68 as u64, EmitterName::ANAPG689 as u64, EmitterName::ANAPG70 as u64, EmitterName::ANAPG71 as u64, EmitterName::ANAPG73 as u64, EmitterName::ANAPG77 as u64, EmitterName::ANAPG78 as u64, EmitterName::ANAPG79 as u64, EmitterName::ANAPG80 as u64, EmitterName::ANAPG81 as u64, EmitterName::ANAPG821 as u64, EmitterName::ANAPG83 as u64, EmitterName::ANAPG502 as u64, EmitterName::ANAPN1 as u64, EmitterName::ANAPN22 as u64, EmitterName::ANAPN59 as u64, EmitterName::ANAPN69 as u64, EmitterName::ANAPN81 as u64, EmitterName::ANAPN102 as u64, EmitterName::ANAPN117 as u64, EmitterName::ANAPN118 as u64, EmitterName::ANAPN122 as u64, EmitterName::ANAPN130 as u64, EmitterName::ANAPN131 as u64, EmitterName::ANAPN133 as u64, EmitterName::ANAPN134 as u64, EmitterName::ANAPN141 as u64, EmitterName::ANAPN147 as u64, EmitterName::ANAPN150 as u64, EmitterName::ANAPN153 as u64, EmitterName::ANAPN154 as u64, EmitterName::ANAPN155 as u64, EmitterName::ANAPN159 as u64, EmitterName::ANAPN177 as u64, EmitterName::ANAPN179 as u64, EmitterName::ANAPN169 as u64, EmitterName::ANAPN182 as u64, EmitterName::ANAPN187 as u64, EmitterName::ANAPN190 as u64, EmitterName::ANAPN194 as u64, EmitterName::ANAPN195 as u64, EmitterName::ANAPN198 as u64, EmitterName::ANAPN200 as u64, EmitterName::ANAPN202 as u64, EmitterName::ANAPN215 as u64, EmitterName::ANAPN209 as u64, EmitterName::ANAPN209D as u64, EmitterName::ANAPN209A as u64, EmitterName::ANAPN215_2 as u64, EmitterName::ANAPN217 as u64, EmitterName::ANAPN218 as u64, EmitterName::ANAPN224 as u64, EmitterName::ANAPN227 as u64, EmitterName::ANAPN230 as u64, EmitterName::ANAPN232 as u64, EmitterName::ANAPN237A as u64, EmitterName::ANAPN234 as u64, EmitterName::ANAPN235 as u64, EmitterName::ANAPN238 as u64, EmitterName::ANAPN222 as u64, EmitterName::ANAPN239 as u64, EmitterName::ANAPN241 as u64, EmitterName::ANAPN242 as u64, EmitterName::ANAPN243 as u64, EmitterName::ANAPN506 as u64, EmitterName::ANAPQ72 as u64, EmitterName::ANAPQ99 as u64, EmitterName::ANAPQ100 as u64, EmitterName::ANAPQ102 as u64, EmitterName::ANAPQ107 as u64, EmitterName::ANAPQ109 as u64, EmitterName::ANAPQ113 as u64, EmitterName::ANAPQ120 as u64, EmitterName::ANAPQ122 as u64, EmitterName::ANAPQ126 as u64, EmitterName::ANAPQ128 as u64, EmitterName::ANAPQ129 as u64, EmitterName::ANAPQ148 as u64, EmitterName::ANAPQ150A as u64, EmitterName::ANAPQ153 as u64, EmitterName::ANAPQ155 as u64, EmitterName::ANAPQ159 as u64, EmitterName::ANAPQ164 as u64, EmitterName::ANAPQ166 as u64, EmitterName::ANAPQ170 as u64, EmitterName::ANAPQ174 as u64, EmitterName::ANAPQ180 as u64, EmitterName::ANAPQ181 as u64, EmitterName::ANAPQ186 as u64, EmitterName::ANAPS15J as u64, EmitterName::ANAPS162 as u64, EmitterName::ANAPS31 as u64, EmitterName::ANAPS42 as u64, EmitterName::ANAPS80 as u64, EmitterName::ANAPS88 as u64, EmitterName::ANAPS88A as u64, EmitterName::ANAPS94 as u64, EmitterName::ANAPS96 as u64, EmitterName::ANAPS113 as u64, EmitterName::ANAPS115 as u64, EmitterName::ANAPS116 as u64, EmitterName::ANAPS120 as u64, EmitterName::ANAPS121 as u64, EmitterName::ANAPS124 as u64, EmitterName::ANAPS125 as u64, EmitterName::ANAPS127 as u64, EmitterName::ANAPS128 as u64, EmitterName::ANAPS130 as u64, EmitterName::ANAPS133 as u64, EmitterName::ANAPS134 as u64, EmitterName::ANAPS137 as u64, EmitterName::ANAPS1375 as u64, EmitterName::ANAPS137B as u64, EmitterName::ANAPS137B5 as u64, EmitterName::ANAPS137D5Elta as u64, EmitterName::ANAPS138 as u64, EmitterName::ANAPS139 as u64, EmitterName::ANAPS143 as u64, EmitterName::ANAPS1431 as u64, EmitterName::ANAPS143B as u64, EmitterName::ANAPS1433 as u64, EmitterName::ANAPS143B3 as u64, EmitterName::ANAPS153 as u64, EmitterName::ANAPS154 as u64, EmitterName::ANAPS150 as u64, EmitterName::ANAPS145 as u64, EmitterName::ANAPS147 as u64, EmitterName::ANAPS149 as u64, EmitterName::ANAPS503 as u64, EmitterName::ANAPS504 as u64, EmitterName::ANAPS705 as u64, EmitterName::ANAPW22 as u64, EmitterName::ANAPW23 as u64, EmitterName::ANAPX6 as u64, EmitterName::ANAPX7 as u64, EmitterName::ANAPX39 as u64, EmitterName::ANAPX64 as u64, EmitterName::ANAPX72 as u64, EmitterName::ANAPX76 as u64, EmitterName::ANAPX78 as u64, EmitterName::ANAPX100 as u64, EmitterName::ANAPX101 as u64, EmitterName::ANAPX113AIFF as u64, EmitterName::ANAPY1 as u64, EmitterName::ANAPY2 as u64, EmitterName::ANAPY3 as u64, EmitterName::ANAPY7 as u64, EmitterName::ANAPY8 as u64, EmitterName::ANAPY9 as u64, EmitterName::ANAPY10 as u64, EmitterName::ANARN21 as u64, EmitterName::ANARN52 as u64, EmitterName::ANARN84 as u64, EmitterName::ANARN118 as u64, EmitterName::ANARN153V as u64, EmitterName::ANARN153 as u64, EmitterName::ANARW73 as u64, EmitterName::ANASB1 as u64, EmitterName::ANASG21 as u64, EmitterName::ANASN137 as u64, EmitterName::ANASN128 as u64, EmitterName::ANASQ108 as u64, EmitterName::ANASQ239 as u64, EmitterName::ANAST502 as u64, EmitterName::ANAVQ55 as u64, EmitterName::ANAWG9 as u64, EmitterName::ANBRN1 as u64, EmitterName::ANBPS5 as u64, EmitterName::ANBPS9 as u64, EmitterName::ANBPS15 as u64, EmitterName::ANBPS15H as u64, EmitterName::ANBPS15J as u64, EmitterName::ANBPS16 as u64, EmitterName::ANBPS162 as u64, EmitterName::ANCPN4 as u64, EmitterName::ANCPN18 as u64, EmitterName::ANCRM30 as u64, EmitterName::ANDPW23 as u64, EmitterName::ANDSQ26PhoenixMH as u64, EmitterName::ANDSQ28HarpoonMH as u64, EmitterName::ANFPN1 as u64, EmitterName::ANFPN28 as u64, EmitterName::ANFPN33 as u64, EmitterName::ANFPN40 as u64, EmitterName::ANFPN62 as u64, EmitterName::ANFPN66 as u64, EmitterName::ANFPS8 as u64, EmitterName::ANFPN67 as u64, EmitterName::ANFPS16 as u64, EmitterName::ANFPS5 as u64, EmitterName::ANFPS18 as u64, EmitterName::ANFPS89 as u64, EmitterName::ANFPS49 as u64, EmitterName::ANFPS117 as u64, EmitterName::ANFPS85 as u64, EmitterName::ANFPS88 as u64, EmitterName::ANFPS113 as u64, EmitterName::ANFPS115 as u64, EmitterName::ANFPS20R as u64, EmitterName::ANFPS132 as u64, EmitterName::ANFPS77 as u64, EmitterName::ANFPS41 as u64, EmitterName::ANFPS100A as u64, EmitterName::ANFPS103 as u64, EmitterName::ANFPS108 as u64, EmitterName::ANGPN12 as u64, EmitterName::ANFPS124 as u64, EmitterName::ANFPS129 as u64, EmitterName::ANGPX6 as u64, EmitterName::ANGPX8 as u64, EmitterName::ANGRN12 as u64, EmitterName::ANMPN14K as u64, EmitterName::ANMPN14 as u64, EmitterName::ANMPQ10 as u64, EmitterName::ANMPN17 as u64, EmitterName::ANMPQ3339465761ILL as u64, EmitterName::ANMPQ34485562TA as u64, EmitterName::ANMPQ49 as u64, EmitterName::ANMPQ3550TA as u64, EmitterName::ANMPQ50C as u64, EmitterName::ANMPQ3751TT as u64, EmitterName::ANMPQ43 as u64, EmitterName::ANMPQ50 as u64, EmitterName::ANMPQ53 as u64, EmitterName::ANMPQ63 as u64, EmitterName::ANMPQ64 as u64, EmitterName::ANSLQ32 as u64, EmitterName::ANMPQ65 as u64, EmitterName::ANSLQ324 as u64, EmitterName::ANSLQ32A as u64, EmitterName::ANSPG34 as u64, EmitterName::ANMSQ104 as u64, EmitterName::ANMPS36 as u64, EmitterName::ANSLQ503 as u64, EmitterName::ANSPG48MK25MOD3 as u64, EmitterName::ANSPG50 as u64, EmitterName::ANSPG51 as u64, EmitterName::ANPPQ2 as u64, EmitterName::ANPPS15 as u64, EmitterName::ANPPS5 as u64, EmitterName::ANPPS5D as u64, EmitterName::ANSPG51CWITI as u64, EmitterName::ANSPG51FC as u64, EmitterName::ANSPG51CD as u64, EmitterName::ANSPG52 as u64, EmitterName::ANSPG53 as u64, EmitterName::ANSPG55B as u64, EmitterName::ANSPG60 as u64, EmitterName::ANSPG62 as u64, EmitterName::ANSPG503 as u64, EmitterName::ANSPN4 as u64, EmitterName::ANSPN11 as u64, EmitterName::ANSPN35 as u64, EmitterName::ANSPN41 as u64, EmitterName::ANSPN43 as u64, EmitterName::ANSPN43A as u64, EmitterName::ANSPN43C as u64, EmitterName::ANSPN46 as u64, EmitterName::ANSPQ2 as u64, EmitterName::ANSPQ5A as u64, EmitterName::ANSPQ9A as u64, EmitterName::ANSPQ9B as u64, EmitterName::ANSPQ34 as u64, EmitterName::ANSPS4 as u64, EmitterName::ANSPS5 as u64, EmitterName::ANSPS5C as u64, EmitterName::ANSPS6 as u64, EmitterName::ANSPS10 as u64, EmitterName::ANSPS21 as u64, EmitterName::ANSPS28 as u64, EmitterName::ANSPS37 as u64, EmitterName::ANSPS39A as u64, EmitterName::ANSPS40 as u64, EmitterName::ANSPS41 as u64, EmitterName::ANSPS48 as u64, EmitterName::ANSPS48C as u64, EmitterName::ANSPS48E as u64, EmitterName::ANSPS49 as u64, EmitterName::ANSPS491 as u64, EmitterName::ANSPS492 as u64, EmitterName::ANSPS493 as u64, EmitterName::ANSPS494 as u64, EmitterName::ANSPS495 as u64, EmitterName::ANSPS496 as u64, EmitterName::ANSPS497 as u64, EmitterName::ANSPS498 as u64, EmitterName::ANSPS49A1 as u64, EmitterName::ANSPS52 as u64, EmitterName::ANSPS53 as u64, EmitterName::ANSPS55 as u64, EmitterName::ANSPS52C as u64, EmitterName::ANSPS55CS as u64, EmitterName::ANSPS55SS as u64, EmitterName::ANSPS58 as u64, EmitterName::ANSPS58C as u64, EmitterName::ANSPS59 as u64, EmitterName::ANSPS64 as u64, EmitterName::ANSPS649 as u64, EmitterName::SPS6412 as u64, EmitterName::ANSPS65 as u64, EmitterName::ANSPS66 as u64, EmitterName::ANSPS67 as u64, EmitterName::ANSPS73_1 as u64, EmitterName::ANSPS69 as u64, EmitterName::ANSPS73_2 as u64, EmitterName::ANSPS74 as u64, EmitterName::ANSPS88 as u64, EmitterName::ANSPS501 as u64, EmitterName::ANSPS505 as u64, EmitterName::ANSPY1 as u64, EmitterName::ANSPY1A as u64, EmitterName::ANSPY1B_1 as u64, EmitterName::ANSPY1B_2 as u64, EmitterName::ANSPY1D_1 as u64, EmitterName::ANSPY1D_2 as u64, EmitterName::ANSPY1F as u64, EmitterName::ANSPY3 as u64, EmitterName::ANTPN12 as u64, EmitterName::ANSPY4 as u64, EmitterName::ANTLQ32ARMDecoy as u64, EmitterName::ANTPN17 as u64, EmitterName::ANTPN8 as u64, EmitterName::ANTPN22 as u64, EmitterName::ANTLQ17A as u64, EmitterName::ANTMS1 as u64, EmitterName::ANTPN24 as u64, EmitterName::ANTPN25 as u64, EmitterName::ANTMS2 as u64, EmitterName::ANTPN19 as u64, EmitterName::ANTPN31 as u64, EmitterName::ANTPQ18 as u64, EmitterName::ANSPY6 as u64, EmitterName::ANTPQ36 as u64, EmitterName::ANTPQ37 as u64, EmitterName::ANTPQ38 as u64, EmitterName::ANTPQ39 as u64, EmitterName::ANTPQ47 as u64, EmitterName::ANTPS43 as u64, EmitterName::ANTPS43E as u64, EmitterName::ANTPQ48 as u64, EmitterName::ANTPQ49 as u64, EmitterName::ANTPQ46A as u64, EmitterName::ANTPS34 as u64, EmitterName::ANTPS59 as u64, EmitterName::ANTPS44 as u64, EmitterName::ANTPQ50 as u64, EmitterName::ANTPS63 as u64, EmitterName::ANTPS65 as u64, EmitterName::ANTPS701 as u64, EmitterName::ANTPS63SS as u64, EmitterName::ANTPS73 as u64, EmitterName::ANTPS75 as u64, EmitterName::ANTPS77 as u64, EmitterName::ANTPS78 as u64, EmitterName::ANTPS79 as u64, EmitterName::ANTPS703 as u64, EmitterName::ANTPX467 as u64, EmitterName::ANTPS80 as u64, EmitterName::ANTPY2 as u64, EmitterName::ANTSQ288 as u64, EmitterName::ANULQ6A as u64, EmitterName::ANULQ19 as u64, EmitterName::ANULQ21 as u64, EmitterName::ANUPN25 as u64, EmitterName::ANUPS1 as u64, EmitterName::ANUPS2 as u64, EmitterName::ANUPS3 as u64, EmitterName::ANUPX1 as u64, EmitterName::ANUPX5 as u64, EmitterName::ANUPX11 as u64, EmitterName::ANUPX12 as u64, EmitterName::ANUPX17 as u64, EmitterName::ANUPX23 as u64, EmitterName::ANUSQ1133 as u64, EmitterName::ANVPS2 as u64, EmitterName::ANPLM3 as u64, EmitterName::ANPLM3A as u64, EmitterName::ANPLM4 as u64, EmitterName::ANZPY1 as u64, EmitterName::ANZPY2MPRTIP as u64, EmitterName::ANZPY3 as u64, EmitterName::ANZPY8 as u64, EmitterName::AORL1AS as u64, EmitterName::AORL85KTKMTA as u64, EmitterName::APAR as u64, EmitterName::Aparna as u64, EmitterName::APECSII as u64, EmitterName::ApelcoAD77 as u64, EmitterName::APG71 as u64, EmitterName::APN148 as u64, EmitterName::APN227 as u64, EmitterName::APQ113 as u64, EmitterName::APQ120 as u64, EmitterName::APQ148 as u64, EmitterName::APS504V3 as u64, EmitterName::AQUITAINEII as u64, EmitterName::AR1 as u64, EmitterName::AR3D as u64, EmitterName::PlesseyAR5 as u64, EmitterName::AR15 as u64, EmitterName::AR152 as u64, EmitterName::AR320 as u64, EmitterName::AR325 as u64, EmitterName::AR327 as u64, EmitterName::Arbalet52 as u64, EmitterName::ARBB31 as u64, EmitterName::ARBB33 as u64, EmitterName::ARIES as u64, EmitterName::AriesNav as u64, EmitterName::AriesCS as u64, EmitterName::ARGS14E as u64, EmitterName::ARGS31 as u64, EmitterName::ARGUS as u64, EmitterName::ARM31 as u64, EmitterName::ARECIBO as u64, EmitterName::ARED as u64, EmitterName::ARI5954 as u64, EmitterName::ARI5955 as u64, EmitterName::ARI5979 as u64, EmitterName::ARGSN31 as u64, EmitterName::ARGOS10 as u64, EmitterName::ARGOS800 as u64, EmitterName::ARI5983 as u64, EmitterName::ARI5991 as u64, EmitterName::ARI5995 as u64, EmitterName::ARINC564BNDXKINGRDR1E as u64, EmitterName::ARINC700BNDXKINGRDR1E as u64, EmitterName::ARK1 as u64, EmitterName::ARLMMTI as u64, EmitterName::ARMOR as u64, EmitterName::ARSR3 as u64, EmitterName::ARS400 as u64, EmitterName::ARSR1 as u64, EmitterName::ARSR4 as u64, EmitterName::ARSR18 as u64, EmitterName::ARTHUR as u64, EmitterName::ARTHURMODB as u64, EmitterName::ARTHURMODC as u64, EmitterName::ARTISAN3D as u64, EmitterName::AS2Kipper as u64, EmitterName::AS2KipperMH as u64, EmitterName::AS3YJ83KmmWMH as u64, EmitterName::AS_34KormoranSeeker as u64, EmitterName::AS4Kitchen as u64, EmitterName::AS4KitchenMH as u64, EmitterName::AS5KeltMH as u64, EmitterName::AS6KingfishMH as u64, EmitterName::AS7Kerry as u64, EmitterName::AS7KerryMG as u64, EmitterName::AS15KENTaltimeter as u64, EmitterName::AS17AKryptonSeeker as u64, EmitterName::AS17BKryptonSeeker as u64, EmitterName::AS901 as u64, EmitterName::AS901A as u64, EmitterName::ASARS2 as u64, EmitterName::ASDEKDD as u64, EmitterName::ASLESHA as u64, EmitterName::ASMGCS as u64, EmitterName::ASMI18X as u64, EmitterName::AspideAAMSAMILL as u64, EmitterName::ASMI3 as u64, EmitterName::AselsanMAR as u64, EmitterName::ASR2000 as u64, EmitterName::ASR4 as u64, EmitterName::ASR4D as u64, EmitterName::ASRO as u64, EmitterName::ASR12_1 as u64, EmitterName::ASR22AL as u64, EmitterName::ASR3 as u64, EmitterName::ASR5 as u64, EmitterName::ASR7 as u64, EmitterName::ASR8 as u64, EmitterName::ASR9 as u64, EmitterName::ASR9000 as u64, EmitterName::ASTI as u64, EmitterName::ASR11DASR as u64, EmitterName::ASR12_2 as u64, EmitterName::RaytheonASR10SS as u64, EmitterName::ASR23SS as u64, EmitterName::Arabel as u64, EmitterName::ASTRE as u64, EmitterName::AT2SwatterMG as u64, EmitterName::_9K114ShturmMG as u64, EmitterName::ASTOR as u64, EmitterName::ASTRARCI as u64, EmitterName::ATCR22 as u64, EmitterName::ATCR22M as u64, EmitterName::ATCR2T as u64, EmitterName::ATCR33 as u64, EmitterName::ATCR33KM as u64, EmitterName::ATCR33S as u64, EmitterName::ATCR3T as u64, EmitterName::ATCR44 as u64, EmitterName::ATCR44K as u64, EmitterName::Argos73 as u64, EmitterName::ATCR44MS as u64, EmitterName::ATCR4T as u64, EmitterName::AtlasElektronkTRSN as u64, EmitterName::ATLAS8600X as u64, EmitterName::Atlas9600M as u64, EmitterName::ATLAS9600X as u64, EmitterName::ATLAS9600S as u64, EmitterName::ATLAS9740VTS as u64, EmitterName::ATLASS as u64, EmitterName::ATR500C as u64, EmitterName::AVG65 as u64, EmitterName::AVH7 as u64, EmitterName::AVIACM as u64, EmitterName::AVIAD as u64, EmitterName::Aviaconversia as u64, EmitterName::AviaconversiaII as u64, EmitterName::AviaconversiaIII as u64, EmitterName::AVQ20 as u64, EmitterName::AVQ21 as u64, EmitterName::AVQ30X as u64, EmitterName::AVQ50 as u64, EmitterName::AVQ70 as u64, EmitterName::AWS5 as u64, EmitterName::AWS6 as u64, EmitterName::AWS6B300 as u64, EmitterName::B597Z as u64, EmitterName::B636Z as u64, EmitterName::BackBoard as u64, EmitterName::BackNetAB as u64, EmitterName::BackTrap as u64, EmitterName::BAESystemsRT1805APN as u64, EmitterName::BAESDASS2000Jammer as u64, EmitterName::BalanceBeam as u64, EmitterName::BALTIKAB as u64, EmitterName::BALTYK as u64, EmitterName::BallEnd as u64, EmitterName::BallGun as u64, EmitterName::BALLPOINT as u64, EmitterName::BandStand as u64, EmitterName::BandStand3 as u64, EmitterName::P3537 as u64, EmitterName::BARAX as u64, EmitterName::BASIR110D as u64, EmitterName::BassTilt as u64, EmitterName::Badger as u64, EmitterName::BarracudaJammer as u64, EmitterName::BaykalCountermeasuresSuite as u64, EmitterName::Beacon as u64, EmitterName::BeanSticks as u64, EmitterName::BeeHind as u64, EmitterName::BellNipJammer as u64, EmitterName::BellPushJammer as u64, EmitterName::BellCrownA as u64, EmitterName::BellCrownB as u64, EmitterName::BellSquat as u64, EmitterName::BIGBACK as u64, EmitterName::BigBirdABC as u64, EmitterName::BigBirdD as u64, EmitterName::BigBirdDMod as u64, EmitterName::BigBirdE91N6E as u64, EmitterName::BigBulge as u64, EmitterName::BigBulgeA as u64, EmitterName::BigBulgeB as u64, EmitterName::BIGEYE as u64, EmitterName::SNAR10 as u64, EmitterName::BIGHEADB as u64, EmitterName::BigMesh as u64, EmitterName::BigNet as u64, EmitterName::_9S15MT as u64, EmitterName::BillFold as u64, EmitterName::BLIGHTER400 as u64, EmitterName::BlowpipeMG as u64, EmitterName::BLR as u64, EmitterName::BlueFox as u64, EmitterName::BlueKestrel as u64, EmitterName::BlueVixen as u64, EmitterName::BlueSilk as u64, EmitterName::BlueParrot as u64, EmitterName::BlueOrchid as u64, EmitterName::BMDJG8715 as u64, EmitterName::BoatSail as u64, EmitterName::BORA550 as u64, EmitterName::BoforsElectronic9LV331 as u64, EmitterName::BoforsEricssonSeaGiraffe50HC as u64, EmitterName::BowlMesh as u64, EmitterName::BoxBrick as u64, EmitterName::BoxTrail as u64, EmitterName::BMKG300GJammingPod as u64, EmitterName::BMKG600JammingPod as u64, EmitterName::BMKG800JammingPod as u64, EmitterName::BMKG860186058606 as u64, EmitterName::BPS11A as u64, EmitterName::BPS14 as u64, EmitterName::BPS15A as u64, EmitterName::BR3440CAX57 as u64, EmitterName::BR15TokyoKEIKI as u64, EmitterName::BrahMos as u64, EmitterName::BridgeMaster as u64, EmitterName::BridgeMasterEEPA as u64, EmitterName::BridgeMasterEATAandARPA as u64, EmitterName::BridgeMasterEnaval as u64, EmitterName::BrimstonemmWMH as u64, EmitterName::BreadBin as u64, EmitterName::Asr as u64, EmitterName::BT271 as u64, EmitterName::BU304 as u64, EmitterName::BX732 as u64, EmitterName::BUKMB as u64, EmitterName::BuranD as u64, EmitterName::BUREVISNYK1 as u64, EmitterName::BuzzStand as u64, EmitterName::C5AMultiModeRadar as u64, EmitterName::C802AL as u64, EmitterName::CAESAR as u64, EmitterName::Caiman as u64, EmitterName::CakeStand as u64, EmitterName::CalypsoC61 as u64, EmitterName::CalypsoC63 as u64, EmitterName::CalypsoIi as u64, EmitterName::CalypsoIII as u64, EmitterName::CalypsoIV as u64, EmitterName::CardionCoastal as u64, EmitterName::CastorIi as u64, EmitterName::Castor2JTT as u64, EmitterName::CatHouse as u64, EmitterName::CDR431 as u64, EmitterName::CEAFAR as u64, EmitterName::CEAMOUNT as u64, EmitterName::CEAFAR2L as u64, EmitterName::CEROS200 as u64, EmitterName::CEROS200CWI as u64, EmitterName::CEATAC as u64, EmitterName::CEAOPS as u64, EmitterName::CerberusIII as u64, EmitterName::CHSSN6 as u64, EmitterName::CerberusIV as u64, EmitterName::ChairBlackTT as u64, EmitterName::ChairBlackILL as u64, EmitterName::LEMZ96L6 as u64, EmitterName::CheeseBrick as u64, EmitterName::CheeseCake as u64, EmitterName::LeninetzObzorMS as u64, EmitterName::Clamshell as u64, EmitterName::CLC1 as u64, EmitterName::CLC2 as u64, EmitterName::CLC3 as u64, EmitterName::CLR155 as u64, EmitterName::COASTWATCHER100 as u64, EmitterName::CoastalGiraffe as u64, EmitterName::COBRA as u64, EmitterName::CobraShoe as u64, EmitterName::Colibri as u64, EmitterName::CollinsWXR300 as u64, EmitterName::CollinsWXR700X as u64, EmitterName::CollinsTWR850 as u64, EmitterName::CollinsDN101 as u64, EmitterName::COMET1 as u64, EmitterName::CONDORMK2 as u64, EmitterName::ConsiliumSelesmarRTM25XIM as u64, EmitterName::ContravesSeaHunterMK4 as u64, EmitterName::CornCan as u64, EmitterName::COSMOSKYMED1 as u64, EmitterName::CR105RMCA as u64, EmitterName::CREWDuke2 as u64, EmitterName::CREWDuke3 as u64, EmitterName::CrossBird as u64, EmitterName::CrossDome as u64, EmitterName::CrossLegs as u64, EmitterName::CrossOut as u64, EmitterName::CrossSlot as u64, EmitterName::CrossSword as u64, EmitterName::CrossUp as u64, EmitterName::CrossSwordFC as u64, EmitterName::CrotaleAcquisitionTA as u64, EmitterName::CrotaleNGTA as u64, EmitterName::CrotaleTT as u64, EmitterName::CrotaleMGMissileSystem as u64, EmitterName::CS10TA as u64, EmitterName::CSFVaran as u64, EmitterName::CSSN4MH as u64, EmitterName::CSSC3CCAS1M1M2MH as u64, EmitterName::HY2BMH as u64, EmitterName::CSSC2BHY1AMH as u64, EmitterName::CSSN4Sardine as u64, EmitterName::CSSN8Saccade as u64, EmitterName::CurlStoneB as u64, EmitterName::CWS1 as u64, EmitterName::CWS2 as u64, EmitterName::CWS3 as u64, EmitterName::Cygnus as u64, EmitterName::CylinderHead as u64, EmitterName::Cymbeline as u64, EmitterName::CyranoII as u64, EmitterName::CyranoIV as u64, EmitterName::CyranoIVM as u64, EmitterName::DA0100 as u64, EmitterName::DA0500 as u64, EmitterName::DA052 as u64, EmitterName::DA_08 as u64, EmitterName::Dawn as u64, EmitterName::DCR as u64, EmitterName::DeadDuck as u64, EmitterName::DECCA20V909 as u64, EmitterName::DECCA20V90S as u64, EmitterName::DECCA45 as u64, EmitterName::DECCA50 as u64, EmitterName::DECCA71 as u64, EmitterName::Decca72 as u64, EmitterName::DECCA110 as u64, EmitterName::DECCA170 as u64, EmitterName::DECCAHF2 as u64, EmitterName::DECCA202 as u64, EmitterName::DECCAD202 as u64, EmitterName::DECCA303 as u64, EmitterName::DECCA535 as u64, EmitterName::DECCA626 as u64, EmitterName::DECCA629 as u64, EmitterName::DECCA914 as u64, EmitterName::DECCA916 as u64, EmitterName::DECCA926 as u64, EmitterName::DECCA1070A as u64, EmitterName::Decca1008 as u64, EmitterName::DECCA1226Commercial as u64, EmitterName::DECCA1290 as u64, EmitterName::DECCA1626 as u64, EmitterName::DECCA2070 as u64, EmitterName::Decca1630 as u64, EmitterName::DECCA2459 as u64, EmitterName::DECCAAWS1 as u64, EmitterName::DECCAAWS2 as u64, EmitterName::DECCAAWS4 as u64, EmitterName::DECCAAWS42 as u64, EmitterName::DECCAMAR as u64, EmitterName::DECCARM326 as u64, EmitterName::DECCARM416 as u64, EmitterName::DECCARM970BT as u64, EmitterName::DECCARM914 as u64, EmitterName::DF21DSeeker as u64, EmitterName::DECCARM1690 as u64, EmitterName::DECCA1690 as u64, EmitterName::DECCASuper101MK3 as u64, EmitterName::DISS1 as u64, EmitterName::DISS7 as u64, EmitterName::DISS013 as u64, EmitterName::DISS15D as u64, EmitterName::DLD100A as u64, EmitterName::RapierTTDN181 as u64, EmitterName::Rapier2000TT as u64, EmitterName::DogEar as u64, EmitterName::DogHouse as u64, EmitterName::DM3 as u64, EmitterName::DM3B as u64, EmitterName::DM5 as u64, EmitterName::Don2 as u64, EmitterName::DonAB2Kay as u64, EmitterName::Donets as u64, EmitterName::Doppler90Series as u64, EmitterName::DownBeat as u64, EmitterName::DR582 as u64, EmitterName::DRAA2A as u64, EmitterName::DRAA2B as u64, EmitterName::DRAA9A as u64, EmitterName::DRAA11A as u64, EmitterName::DRAC37B as u64, EmitterName::DRAC38 as u64, EmitterName::DRAC39 as u64, EmitterName::DRAC39A as u64, EmitterName::DRAC43A as u64, EmitterName::DRAC44A as u64, EmitterName::DragonEye as u64, EmitterName::DragonEye2 as u64, EmitterName::DragonEye3 as u64, EmitterName::DragonEye4 as u64, EmitterName::DRBC30B as u64, EmitterName::DRBC31A as u64, EmitterName::DRBC31D as u64, EmitterName::DRBC32 as u64, EmitterName::DRBC32A as u64, EmitterName::DRBC32D as u64, EmitterName::DRBC33A as u64, EmitterName::DRBI10 as u64, EmitterName::DRBI23 as u64, EmitterName::DRBJ11B as u64, EmitterName::DRBN30 as u64, EmitterName::DRBN32 as u64, EmitterName::DRBN34 as u64, EmitterName::DRBR51 as u64, EmitterName::DRBV20A as u64, EmitterName::DRBV20B as u64, EmitterName::DRBV21Mars05 as u64, EmitterName::DRBV22 as u64, EmitterName::DRBV23 as u64, EmitterName::DRBV26C as u64, EmitterName::DRBV26D as u64, EmitterName::DRBV30 as u64, EmitterName::DRBV31 as u64, EmitterName::DRBV50 as u64, EmitterName::DRBV51 as u64, EmitterName::DRBV51A as u64, EmitterName::DRBV51B as u64, EmitterName::DRBV51C as u64, EmitterName::DropKick as u64, EmitterName::DRUA31 as u64, EmitterName::DrumTilt as u64, EmitterName::DrumTiltA as u64, EmitterName::DrumTiltB as u64, EmitterName::DRUN30A as u64, EmitterName::Dumbo as u64, EmitterName::DWSR92 as u64, EmitterName::DWSR93S as u64, EmitterName::EAGLE as u64, EmitterName::EAGLEMk1 as u64, EmitterName::EAJPJammingPod as u64, EmitterName::EKCOE390 as u64, EmitterName::ECR90 as u64, EmitterName::ECR90Jammer as u64, EmitterName::EggCupAB as u64, EmitterName::EISCAT as u64, EmitterName::EKCOE120 as u64, EmitterName::EKCO190 as u64, EmitterName::Ekran1 as u64, EmitterName::ELL8222 as u64, EmitterName::ELL8240 as u64, EmitterName::ELM2001B as u64, EmitterName::ELM2022 as u64, EmitterName::ELM2032 as u64, EmitterName::ELM2052 as u64, EmitterName::ELM2055 as u64, EmitterName::ELM2060 as u64, EmitterName::ELM2075 as u64, EmitterName::ELM2022U3 as u64, EmitterName::ELM2080 as u64, EmitterName::ELM2080S as u64, EmitterName::ELM2085 as u64, EmitterName::ELM2106 as u64, EmitterName::ELM2106NG as u64, EmitterName::ELM2125 as u64, EmitterName::ELM2129 as u64, EmitterName::ELM2150 as u64, EmitterName::ELM2083 as u64, EmitterName::ELM2084 as u64, EmitterName::ELM2160V1 as u64, EmitterName::ELM2084MMR as u64, EmitterName::ELM2112 as u64, EmitterName::ELM2200 as u64, EmitterName::ELM2133 as u64, EmitterName::ELM2205 as u64, EmitterName::ELM2207 as u64, EmitterName::ELM2215 as u64, EmitterName::ELM2216V as u64, EmitterName::ELM2216XH as u64, EmitterName::ELM2218S as u64, EmitterName::ELT361 as u64, EmitterName::ELM2258 as u64, EmitterName::ELT553 as u64, EmitterName::ELT558 as u64, EmitterName::ELT572 as u64, EmitterName::ELT715 as u64, EmitterName::EltaELM2022A as u64, EmitterName::ELTAELM2221GMSTGR as u64, EmitterName::ELM2228S3D as u64, EmitterName::ELM2705 as u64, EmitterName::ELM2226 as u64, EmitterName::ELM2228X as u64, EmitterName::ELTASIS as u64, EmitterName::ELM2238 as u64, EmitterName::ELM2248 as u64, EmitterName::ELM2288 as u64, EmitterName::ELM2311 as u64, EmitterName::ELM2026 as u64, EmitterName::ELNA4007 as u64, EmitterName::ELT318 as u64, EmitterName::ELW2085 as u64, EmitterName::ELT521 as u64, EmitterName::ELW2090 as u64, EmitterName::EnhancedMeteorDetectionRadarEMDR as u64, EmitterName::EMD2900 as u64, EmitterName::EMPAR as u64, EmitterName::EndTray as u64, EmitterName::EQ36 as u64, EmitterName::EricssonSLAR as u64, EmitterName::Erieye as u64, EmitterName::ESR1 as u64, EmitterName::ESR220 as u64, EmitterName::ESR380 as u64, EmitterName::ESTEREL as u64, EmitterName::ET316 as u64, EmitterName::ExocetType as u64, EmitterName::ExocetAL as u64, EmitterName::Exocet1 as u64, EmitterName::Exocet1MH as u64, EmitterName::Exocet2 as u64, EmitterName::EyeBowl as u64, EmitterName::EyeShield as u64, EmitterName::F332Z as u64, EmitterName::FalconClawTI as u64, EmitterName::FalconClawTT as u64, EmitterName::FALCON as u64, EmitterName::FALCONG as u64, EmitterName::FalconEye as u64, EmitterName::FanSongA as u64, EmitterName::FanSongBFTA as u64, EmitterName::FanSongBFTT as u64, EmitterName::FanSongCETA as u64, EmitterName::FanSongCETT as u64, EmitterName::FanSongCEMG as u64, EmitterName::FanSongBFFMG as u64, EmitterName::FanTail as u64, EmitterName::FAR2117 as u64, EmitterName::FAR2827 as u64, EmitterName::FAR2837S as u64, EmitterName::FAR3000 as u64, EmitterName::FB7Radar as u64, EmitterName::FCR1401 as u64, EmitterName::FCS212E as u64, EmitterName::FCS212G as u64, EmitterName::FCS221A as u64, EmitterName::FCS221C as u64, EmitterName::FCS222 as u64, EmitterName::FCS231 as u64, EmitterName::FCS3 as u64, EmitterName::FinCurve as u64, EmitterName::FireCan as u64, EmitterName::FireDish as u64, EmitterName::FireDomeTA as u64, EmitterName::FireDomeTT as u64, EmitterName::FireDomeTI as u64, EmitterName::FireIron as u64, EmitterName::FireWheel as u64, EmitterName::FishBowl as u64, EmitterName::FK3 as u64, EmitterName::FLAIR as u64, EmitterName::FlapLid as u64, EmitterName::_30N6E as u64, EmitterName::FlapTruck as u64, EmitterName::FlapWheel as u64, EmitterName::FlashDance as u64, EmitterName::FlashDanceM as u64, EmitterName::P15 as u64, EmitterName::_35N6 as u64, EmitterName::FlatScreen as u64, EmitterName::FlatSpin as u64, EmitterName::FlatTrackJammer as u64, EmitterName::FlatTwin as u64, EmitterName::FL400 as u64, EmitterName::FL1800 as u64, EmitterName::FL1800U as u64, EmitterName::FL1800S as u64, EmitterName::Fledermaus as u64, EmitterName::FLYCATCHER as u64, EmitterName::FLYCATCHERMK2 as u64, EmitterName::FlyScreen as u64, EmitterName::FlyScreenAB as u64, EmitterName::FlyTrapB as u64, EmitterName::FM90 as u64, EmitterName::FogLampMG as u64, EmitterName::FogLampTT as u64, EmitterName::FoilTwo as u64, EmitterName::FootBall as u64, EmitterName::FoxHunter as u64, EmitterName::FoxFireAL as u64, EmitterName::FoxFireILL as u64, EmitterName::FR151A as u64, EmitterName::FurunoFR1500FR1600 as u64, EmitterName::FR1505DA as u64, EmitterName::FR1510DS as u64, EmitterName::FR2000 as u64, EmitterName::Furuno2855W as u64, EmitterName::FregatMAE as u64, EmitterName::FregatN1 as u64, EmitterName::FregatN2 as u64, EmitterName::FrontDome as u64, EmitterName::FregatMAE5 as u64, EmitterName::FrontDoor as u64, EmitterName::FrontPiece as u64, EmitterName::FurbymmWMH as u64, EmitterName::Furke as u64, EmitterName::Furke2 as u64, EmitterName::Furke4 as u64, EmitterName::Furuno as u64, EmitterName::Furuno1721 as u64, EmitterName::Furuno1934C as u64, EmitterName::Furuno1715 as u64, EmitterName::Furuno1730 as u64, EmitterName::Furuno1731Mark3 as u64, EmitterName::Furuno1832 as u64, EmitterName::Furuno1835 as u64, EmitterName::Furuno1932 as u64, EmitterName::Furuno1935 as u64, EmitterName::Furuno701 as u64, EmitterName::Furuno1940 as u64, EmitterName::Furuno7112 as u64, EmitterName::FurunoFR2130S as u64, EmitterName::FurunoFAR2137S as u64, EmitterName::FurunoFAR28X7 as u64, EmitterName::FurunoFAR3230S as u64, EmitterName::FR2110 as u64, EmitterName::FR2115 as u64, EmitterName::FR8062 as u64, EmitterName::Furuno2125 as u64, EmitterName::Furuno240 as u64, EmitterName::Furuno2400 as u64, EmitterName::FR801D as u64, EmitterName::Furuno8051 as u64, EmitterName::FurunoDRS2D as u64, EmitterName::FurunoDRS4D as u64, EmitterName::FurunoDRS4A as u64, EmitterName::G030A as u64, EmitterName::FurunoDRS6AXClass as u64, EmitterName::DRS4W as u64, EmitterName::GA0100 as u64, EmitterName::Gabbiano as u64, EmitterName::Gage as u64, EmitterName::Gaofen3 as u64, EmitterName::GAOFEN12 as u64, EmitterName::GAPGATE as u64, EmitterName::Gardenia as u64, EmitterName::GarminGMR1224 as u64, EmitterName::GarminFantom24 as u64, EmitterName::GarminGWX68WeatherRadar as u64, EmitterName::Garpin as u64, EmitterName::GateGuard as u64, EmitterName::GarpunBalE as u64, EmitterName::GBS1 as u64, EmitterName::GCA2000 as u64, EmitterName::Furuno18321921Series as u64, EmitterName::GEMINIDB as u64, EmitterName::GEMOlympus as u64, EmitterName::GEMSentinel as u64, EmitterName::GEMBX132 as u64, EmitterName::GEMSC2050X as u64, EmitterName::GEMSeaEagle200N as u64, EmitterName::GenericInternalJammer as u64, EmitterName::MPDR12 as u64, EmitterName::GENX as u64, EmitterName::GepardTT as u64, EmitterName::GERANF as u64, EmitterName::GERFAUT as u64, EmitterName::GFE1 as u64, EmitterName::GIRAFFE as u64, EmitterName::GIRAFFE1X as u64, EmitterName::Giraffe40 as u64, EmitterName::Giraffe50AT as u64, EmitterName::Giraffe75 as u64, EmitterName::GinSlingTA as u64, EmitterName::GinSling as u64, EmitterName::GinSlingMG as u64, EmitterName::GoalKeeper as u64, EmitterName::GoldenDome as u64, EmitterName::GoldenHeart as u64, EmitterName::GoldenRock as u64, EmitterName::GPN22 as u64, EmitterName::GPSJ10 as u64, EmitterName::GPSJ25 as u64, EmitterName::GPSJ40 as u64, EmitterName::GPSJ50 as u64, EmitterName::GRN9 as u64, EmitterName::GRANK as u64, EmitterName::GraveStone as u64, EmitterName::GRAVES as u64, EmitterName::GreenStain as u64, EmitterName::GridBow as u64, EmitterName::GrifoF as u64, EmitterName::_9S32 as u64, EmitterName::GRILLSCREEN as u64, EmitterName::Grom2 as u64, EmitterName::GROUNDMASTER400 as u64, EmitterName::GT4 as u64, EmitterName::GRS440 as u64, EmitterName::GUARDIAN as u64, EmitterName::Guardsman as u64, EmitterName::RPK2 as u64, EmitterName::HRJZ7264AJammer as u64, EmitterName::H025 as u64, EmitterName::HADR as u64, EmitterName::HairNet as u64, EmitterName::HalfPlateA as u64, EmitterName::HalfPlateB as u64, EmitterName::HARD as u64, EmitterName::Harpoon as u64, EmitterName::HatBox as u64, EmitterName::HawkScreech as u64, EmitterName::HayPole as u64, EmitterName::HayRick as u64, EmitterName::HeadLightA as u64, EmitterName::HeadLights as u64, EmitterName::HeadLightsC as u64, EmitterName::HeadLightsMGA as u64, EmitterName::HeadLightsMGB as u64, EmitterName::HeadLightsTT as u64, EmitterName::HeadNet as u64, EmitterName::HeartAcheB as u64, EmitterName::HellfiremmWMH as u64, EmitterName::HenEgg as u64, EmitterName::HenHouse as u64, EmitterName::HenNest as u64, EmitterName::HenRoost as u64, EmitterName::Herakles as u64, EmitterName::HF2MG as u64, EmitterName::HGR105 as u64, EmitterName::HighBrick as u64, EmitterName::HighFix as u64, EmitterName::HighGuard as u64, EmitterName::HighLarkTI as u64, EmitterName::HighLark1 as u64, EmitterName::HighLark2 as u64, EmitterName::HighLark4 as u64, EmitterName::HighLune as u64, EmitterName::HighPoleAB as u64, EmitterName::HighScoop as u64, EmitterName::_9S19MT as u64, EmitterName::HighSieve as u64, EmitterName::HillBlock as u64, EmitterName::HimalayasCountermeasuresSuite as u64, EmitterName::HG9550 as u64, EmitterName::HJ6374 as u64, EmitterName::HLDRADAR900 as u64, EmitterName::HLJQ520 as u64, EmitterName::HN503 as u64, EmitterName::HNC03M as u64, EmitterName::HomeTalk as u64, EmitterName::HornSpoon as u64, EmitterName::HotBrick as u64, EmitterName::HotFlash as u64, EmitterName::HotFlash2 as u64, EmitterName::IHS6 as u64, EmitterName::IRL144MHotShotTA as u64, EmitterName::IRL144MHotShotTT as u64, EmitterName::IRL144MHotShotMG as u64, EmitterName::HPS106 as u64, EmitterName::HPS104 as u64, EmitterName::HQ9MH as u64, EmitterName::HSR1128 as u64, EmitterName::HT233 as u64, EmitterName::HQ61 as u64, EmitterName::HRJS as u64, EmitterName::IDerbyER as u64, EmitterName::IBIS80 as u64, EmitterName::IBIS150 as u64, EmitterName::IBIS200 as u64, EmitterName::IFFMKXIIAIMSUPX29 as u64, EmitterName::Janet as u64, EmitterName::IFFMKXV as u64, EmitterName::IFFINT as u64, EmitterName::JackKnife as u64, EmitterName::IFFTRSP as u64, EmitterName::JMUSICElbitSystemsJammer as u64, EmitterName::JavelinMG as u64, EmitterName::JALQ8 as u64, EmitterName::JFPS7 as u64, EmitterName::JayBird as u64, EmitterName::JFPS3 as u64, EmitterName::JH10 as u64, EmitterName::JMPQP7 as u64, EmitterName::JL7 as u64, EmitterName::JL10B as u64, EmitterName::JMA1576 as u64, EmitterName::JRCJMA92526CA as u64, EmitterName::JLP40 as u64, EmitterName::JRCJMR9200SeriesX as u64, EmitterName::JRCNMD401 as u64, EmitterName::JRCJRM310MK2 as u64, EmitterName::JMA1596 as u64, EmitterName::JMA7000 as u64, EmitterName::JRCJMA7700 as u64, EmitterName::JMA5320 as u64, EmitterName::JRCJMR92106XC as u64, EmitterName::JERS1 as u64, EmitterName::JINDALEE as u64, EmitterName::JRCJMA9900series as u64, EmitterName::JLP40D as u64, EmitterName::JRCJMA5300series as u64, EmitterName::Jupiter as u64, EmitterName::JupiterII as u64, EmitterName::JY8 as u64, EmitterName::JY8A as u64, EmitterName::JY9 as u64, EmitterName::JY9Modified as u64, EmitterName::JY11EW as u64, EmitterName::JY14 as u64, EmitterName::JY14A as u64, EmitterName::JY16 as u64, EmitterName::JY24 as u64, EmitterName::JAPG1 as u64, EmitterName::JAPG2 as u64, EmitterName::JY29 as u64, EmitterName::JYL1 as u64, EmitterName::JYL6 as u64, EmitterName::JYL6A as u64, EmitterName::JZQF612 as u64, EmitterName::K376Z as u64, EmitterName::K77M as u64, EmitterName::Kaige as u64, EmitterName::KALKAN as u64, EmitterName::KBPAfganit as u64, EmitterName::KALKANII as u64, EmitterName::KelvinHughes2A as u64, EmitterName::KelvinHughes149 as u64, EmitterName::Karpaty as u64, EmitterName::Kashtan3JammingSystem as u64, EmitterName::KelvinHughestype1006 as u64, EmitterName::KelvinHughestype1007 as u64, EmitterName::KelvinHughesType1007FBand as u64, EmitterName::KelvinHughes2007FBand as u64, EmitterName::KelvinHughes2007IBand as u64, EmitterName::KHNucleus5000 as u64, EmitterName::KHMANTA as u64, EmitterName::KHNUCLEUS26000 as u64, EmitterName::KHNUCLEUS35000 as u64, EmitterName::KHNUCLEUS36000A as u64, EmitterName::KHFamily as u64, EmitterName::KelvinHughes6000A as u64, EmitterName::Kh38MAEMH as u64, EmitterName::KG8605A as u64, EmitterName::KH902M as u64, EmitterName::KHOROMK as u64, EmitterName::KHIBINY as u64, EmitterName::KG300E as u64, EmitterName::KHSharpEye as u64, EmitterName::KHSharpEyeB as u64, EmitterName::KHSharpEyeC as u64, EmitterName::KH1700 as u64, EmitterName::KingPin as u64, EmitterName::KG300 as u64, EmitterName::KiteScreech as u64, EmitterName::KiteScreechA as u64, EmitterName::KiteScreechB as u64, EmitterName::KLC3B as u64, EmitterName::KJ500NanjingRadar as u64, EmitterName::Kivach as u64, EmitterName::KJ500Jammer as u64, EmitterName::KLC1 as u64, EmitterName::KLJ1 as u64, EmitterName::KLJ3 as u64, EmitterName::KLJ4 as u64, EmitterName::KLJ4B as u64, EmitterName::KLJ5 as u64, EmitterName::KLJ7 as u64, EmitterName::KLJ7B as u64, EmitterName::KLJ7A as u64, EmitterName::KnifeRest as u64, EmitterName::P10 as u64, EmitterName::KNIFERESTC as u64, EmitterName::KodenMD3730 as u64, EmitterName::KJ2000 as u64, EmitterName::KODENMDC900 as u64, EmitterName::Koopol as u64, EmitterName::KOPYOI as u64, EmitterName::KR75 as u64, EmitterName::KRONOS as u64, EmitterName::KREDO1E as u64, EmitterName::Krasukha2 as u64, EmitterName::KRONOSGRANDNAVAL as u64, EmitterName::KRM66E as u64, EmitterName::KSASRN as u64, EmitterName::KSATSR as u64, EmitterName::KS1APHASEDARRAY as u64, EmitterName::KS418 as u64, EmitterName::KS418E as u64, EmitterName::KZ100 as u64, EmitterName::KZ900 as u64, EmitterName::L175V as u64, EmitterName::L3705PresidentSJammer as u64, EmitterName::L415 as u64, EmitterName::L88 as u64, EmitterName::LAADS as u64, EmitterName::LandFall as u64, EmitterName::LandRollMG as u64, EmitterName::LandRollTA as u64, EmitterName::LandRollTT as u64, EmitterName::LAZUR as u64, EmitterName::Model791A as u64, EmitterName::LAP3000 as u64, EmitterName::LC150 as u64, EmitterName::LEER3 as u64, EmitterName::LegDrive as u64, EmitterName::LeninetzV004 as u64, EmitterName::Leningraf as u64, EmitterName::LIANA as u64, EmitterName::LightBulb as u64, EmitterName::LIRAA10 as u64, EmitterName::LIROD8 as u64, EmitterName::LIRODMKII as u64, EmitterName::LLX05K as u64, EmitterName::LMTNRAI6A as u64, EmitterName::LN55 as u64, EmitterName::Ln66 as u64, EmitterName::Liman as u64, EmitterName::Liman2 as u64, EmitterName::LockheedVigilance as u64, EmitterName::LongBow as u64, EmitterName::LongBrick as u64, EmitterName::LongBull as u64, EmitterName::LongEye as u64, EmitterName::LongHead as u64, EmitterName::LongTalk as u64, EmitterName::LongTrack as u64, EmitterName::LongTrough as u64, EmitterName::LookTwo as u64, EmitterName::LOPAR as u64, EmitterName::LORAN as u64, EmitterName::LowBlowTA as u64, EmitterName::LowBlowTT as u64, EmitterName::LowBlowMG as u64, EmitterName::LowJackTT as u64, EmitterName::LowJackMG as u64, EmitterName::LowSieve as u64, EmitterName::LowTrough as u64, EmitterName::LR66 as u64, EmitterName::LRA900 as u64, EmitterName::TRS2050 as u64, EmitterName::LW01 as u64, EmitterName::LW08 as u64, EmitterName::M1983FCR as u64, EmitterName::M2240 as u64, EmitterName::M44 as u64, EmitterName::M401Z as u64, EmitterName::M585Z as u64, EmitterName::M588Z as u64, EmitterName::MA1IFFPortion as u64, EmitterName::MADHACK as u64, EmitterName::MARELD as u64, EmitterName::MAType909 as u64, EmitterName::MARCS152 as u64, EmitterName::Marconi1810 as u64, EmitterName::MarconiCanadaHC75 as u64, EmitterName::MarconiS713 as u64, EmitterName::MarconiS1802 as u64, EmitterName::MarconiS247 as u64, EmitterName::MarconiS810 as u64, EmitterName::MarconiSA10 as u64, EmitterName::MARCONIST801 as u64, EmitterName::MarconiST805 as u64, EmitterName::Marconitype967 as u64, EmitterName::Marconitype968 as u64, EmitterName::Marconitype992 as u64, EmitterName::Marconisignaaltype1022 as u64, EmitterName::Marconisignaaltype910 as u64, EmitterName::Marconisignaaltype911 as u64, EmitterName::Marconisignaaltype992R as u64, EmitterName::MARTELLO743D as u64, EmitterName::MARTELLOS723A as u64, EmitterName::MASTERA as u64, EmitterName::MBDAFLAADSMJammer as u64, EmitterName::MELCO3 as u64, EmitterName::MELODI as u64, EmitterName::MERLIN as u64, EmitterName::Meraj4 as u64, EmitterName::NorthropGrummanMESA as u64, EmitterName::MeshBrick as u64, EmitterName::METEOR1500S as u64, EmitterName::METEOR200 as u64, EmitterName::METEOR50DX as u64, EmitterName::METEOR300 as u64, EmitterName::MeteorBVRAAM as u64, EmitterName::MFR as u64, EmitterName::MFSR210045 as u64, EmitterName::MICAMH as u64, EmitterName::MICARF as u64, EmitterName::MineralME as u64, EmitterName::MirageILL as u64, EmitterName::MiysisJammer as u64, EmitterName::MK15 as u64, EmitterName::MK15CIWS as u64, EmitterName::MK23 as u64, EmitterName::MK23TAS as u64, EmitterName::MK25 as u64, EmitterName::Mk25Mod3 as u64, EmitterName::Mk25Mod7 as u64, EmitterName::MK35M2 as u64, EmitterName::MK92 as u64, EmitterName::MK92CAS as u64, EmitterName::MK92STIR as u64, EmitterName::MK95 as u64, EmitterName::MKS818 as u64, EmitterName::MLA1 as u64, EmitterName::MMAPQ706 as u64, EmitterName::MM950 as u64, EmitterName::MMAPS705 as u64, EmitterName::MMAPS784 as u64, EmitterName::MMSPG73 as u64, EmitterName::MMSPG74 as u64, EmitterName::MMSPG75 as u64, EmitterName::MMSPN703 as u64, EmitterName::MMSPN730 as u64, EmitterName::MMSPN753B as u64, EmitterName::MMSPQ3 as u64, EmitterName::MMSPS702 as u64, EmitterName::MMSPS768 as u64, EmitterName::MMSPS774 as u64, EmitterName::MMSPS791 as u64, EmitterName::MMSPS794 as u64, EmitterName::MMSPS798 as u64, EmitterName::MMSR as u64, EmitterName::Model17C as u64, EmitterName::Moon4 as u64, EmitterName::MoonPie as u64, EmitterName::MOONCONE as u64, EmitterName::MoonRack as u64, EmitterName::MOONFACE as u64, EmitterName::MMRS as u64, EmitterName::Model360 as u64, EmitterName::Model378 as u64, EmitterName::Model970 as u64, EmitterName::Model974 as u64, EmitterName::MONOLITB as u64, EmitterName::Monument as u64, EmitterName::Mouse as u64, EmitterName::MP411ESM as u64, EmitterName::MPDR18S as u64, EmitterName::MPDR18X as u64, EmitterName::MPDR45E as u64, EmitterName::MR2311 as u64, EmitterName::MPR as u64, EmitterName::MR2314 as u64, EmitterName::MPS1 as u64, EmitterName::MR36B as u64, EmitterName::MR231MOD as u64, EmitterName::MR1600 as u64, EmitterName::MRR as u64, EmitterName::MR35 as u64, EmitterName::MR36 as u64, EmitterName::MRL1 as u64, EmitterName::MRL4 as u64, EmitterName::MRL5 as u64, EmitterName::MSAM as u64, EmitterName::MR36A as u64, EmitterName::MSTAR as u64, EmitterName::MT305X as u64, EmitterName::MR10M1E as u64, EmitterName::MR90 as u64, EmitterName::MRK411 as u64, EmitterName::MR320MTopazV as u64, EmitterName::MSP418K as u64, EmitterName::MuffCob as u64, EmitterName::Mushroom as u64, EmitterName::Mushroom1 as u64, EmitterName::Mushroom2 as u64, EmitterName::Mushroom3 as u64, EmitterName::N23 as u64, EmitterName::N011MBars as u64, EmitterName::N011MBarsB as u64, EmitterName::N011MBarsC as u64, EmitterName::N011MBarsR as u64, EmitterName::N035IrbisE as u64, EmitterName::N036Byelka as u64, EmitterName::N25 as u64, EmitterName::N920Z as u64, EmitterName::N001V as u64, EmitterName::NACOSRADARPILOTPlatinum as u64, EmitterName::NampoB as u64, EmitterName::NAGIRA as u64, EmitterName::NanjingB as u64, EmitterName::NanjingC as u64, EmitterName::Nayada as u64, EmitterName::NAYADA5M as u64, EmitterName::NAYADA5PV as u64, EmitterName::NEBOM as u64, EmitterName::NeboSVU as u64, EmitterName::Neptun as u64, EmitterName::Nettuno4100 as u64, EmitterName::NIKEHERCULESMTR as u64, EmitterName::NIKETT as u64, EmitterName::NorthropGrummanMFEWJammer as u64, EmitterName::NORINCO3D as u64, EmitterName::NJ81E as u64, EmitterName::Normandie as u64, EmitterName::NRJ6A as u64, EmitterName::NOSTRADAMUS as u64, EmitterName::NPG1240 as u64, EmitterName::NPG1460 as u64, EmitterName::NPG434 as u64, EmitterName::NPG630 as u64, EmitterName::NPM510 as u64, EmitterName::NutCan as u64, EmitterName::NPVegaLiana as u64, EmitterName::NovellaNV1_70 as u64, EmitterName::NRBA50 as u64, EmitterName::NRBA51 as u64, EmitterName::NRBF20A as u64, EmitterName::NRJ5 as u64, EmitterName::NS9005 as u64, EmitterName::NS100Series as u64, EmitterName::NUR31 as u64, EmitterName::NWS3 as u64, EmitterName::NysaB as u64, EmitterName::O524A as u64, EmitterName::O580B as u64, EmitterName::O625Z as u64, EmitterName::O626Z as u64, EmitterName::OceanMaster as u64, EmitterName::OceanMaster400 as u64, EmitterName::OddGroup as u64, EmitterName::OddLot as u64, EmitterName::OddPair as u64, EmitterName::OddRods as u64, EmitterName::Oka as u64, EmitterName::OFOGH as u64, EmitterName::OFOGH3 as u64, EmitterName::OKEAN as u64, EmitterName::OKEANA as u64, EmitterName::OKINXE12C as u64, EmitterName::OKO as u64, EmitterName::OMEGA as u64, EmitterName::OmeraORB32 as u64, EmitterName::OMUL as u64, EmitterName::OneEye as u64, EmitterName::OP28 as u64, EmitterName::OPRL4 as u64, EmitterName::OPRM71 as u64, EmitterName::OPS9 as u64, EmitterName::OPS11BC as u64, EmitterName::OPS12 as u64, EmitterName::OPS14B as u64, EmitterName::OPS14C as u64, EmitterName::OPS16B as u64, EmitterName::OPS18 as u64, EmitterName::OPS19 as u64, EmitterName::OPS20 as u64, EmitterName::OPS22 as u64, EmitterName::OPS24 as u64, EmitterName::OPS28 as u64, EmitterName::OPS28C as u64, EmitterName::OPS39 as u64, EmitterName::OPTIMA3_2 as u64, EmitterName::OR2 as u64, EmitterName::ORB31D as u64, EmitterName::ORB31S as u64, EmitterName::ORB32 as u64, EmitterName::ORB42 as u64, EmitterName::OrionRtn10X as u64, EmitterName::SurfaceWave as u64, EmitterName::OtomatMK1 as u64, EmitterName::OtomatMKIITeseo as u64, EmitterName::OtomatSeriesAL as u64, EmitterName::OwlScreech as u64, EmitterName::P360Z as u64, EmitterName::P14 as u64, EmitterName::P180U as u64, EmitterName::P182 as u64, EmitterName::PA1660 as u64, EmitterName::P18M as u64, EmitterName::P190U as u64, EmitterName::P30 as u64, EmitterName::P18MOD as u64, EmitterName::P35M as u64, EmitterName::PAGE as u64, EmitterName::PaintBox as u64, EmitterName::PalmFrond as u64, EmitterName::ModifiedPaintBox as u64, EmitterName::PalmFrondAB as u64, EmitterName::Pandora as u64, EmitterName::PALSAR2 as u64, EmitterName::PantsirSMTAR as u64, EmitterName::PAR2 as u64, EmitterName::PAR2000 as u64, EmitterName::PAR2090C as u64, EmitterName::PAR80 as u64, EmitterName::PatHandTT as u64, EmitterName::PatHandMG as u64, EmitterName::PATRIOT as u64, EmitterName::PattyCake as u64, EmitterName::PawnCake as u64, EmitterName::PBR4Rubin as u64, EmitterName::PCS514 as u64, EmitterName::PeaSticks as u64, EmitterName::PechoraSC as u64, EmitterName::PeelCone as u64, EmitterName::PeelGroup as u64, EmitterName::PeelGroupA as u64, EmitterName::PeelGroupB as u64, EmitterName::PeelGroupMG as u64, EmitterName::PeelPair as u64, EmitterName::Pelena as u64, EmitterName::PGZ07 as u64, EmitterName::Phalanx as u64, EmitterName::PhazotronGukol4 as u64, EmitterName::PhazotronZhukAAE as u64, EmitterName::Philips9LV200 as u64, EmitterName::Philips9LV331 as u64, EmitterName::PhilipsLV223 as u64, EmitterName::PhilipsSeaGiraffe50HC as u64, EmitterName::PhimatJammer as u64, EmitterName::PICOSAR as u64, EmitterName::PILOTMK2 as u64, EmitterName::PinJib as u64, EmitterName::PinTip as u64, EmitterName::PL11 as u64, EmitterName::PL12 as u64, EmitterName::PL15 as u64, EmitterName::PlankShad as u64, EmitterName::PlankShave as u64, EmitterName::PlankShaveA as u64, EmitterName::PlankShaveB as u64, EmitterName::PlateSteer as u64, EmitterName::PlesseyAWS1 as u64, EmitterName::PlesseyAWS2 as u64, EmitterName::PlesseyAWS4 as u64, EmitterName::PlesseyAWS6 as u64, EmitterName::PlesseyRJ as u64, EmitterName::PlesseyType904 as u64, EmitterName::Plesseytype996 as u64, EmitterName::PlesseyAWS9 as u64, EmitterName::PlinthNet as u64, EmitterName::Pluto as u64, EmitterName::PNABRubinDownBeat as u64, EmitterName::POHJANPALO as u64, EmitterName::PolimentK as u64, EmitterName::POLLUX as u64, EmitterName::PotGroup as u64, EmitterName::PotGroupMG as u64, EmitterName::PotGroupTA as u64, EmitterName::PotGroupTT as u64, EmitterName::PorkFist as u64, EmitterName::PorkTrough as u64, EmitterName::PozitivME15P26 as u64, EmitterName::PositiveME1_2 as u64, EmitterName::PostBow as u64, EmitterName::PostLamp as u64, EmitterName::PotDrum as u64, EmitterName::PotHead as u64, EmitterName::PotShot as u64, EmitterName::PraetorianCountermeasuresSuite as u64, EmitterName::PRIMUS30A as u64, EmitterName::PRIMUS40WXD as u64, EmitterName::Primus400 as u64, EmitterName::PRIMUS300SL as u64, EmitterName::Primus500 as u64, EmitterName::Primus650 as u64, EmitterName::Primus700 as u64, EmitterName::PRIMUS800 as u64, EmitterName::Primus3000 as u64, EmitterName::Primus870 as u64, EmitterName::PRORA as u64, EmitterName::PRS2 as u64, EmitterName::PRS3Argon2 as u64, EmitterName::PRORAPA1660 as u64, EmitterName::PS15 as u64, EmitterName::PS05A as u64, EmitterName::PS46A as u64, EmitterName::PS70R as u64, EmitterName::PS171R as u64, EmitterName::PS860 as u64, EmitterName::PS870 as u64, EmitterName::PS890 as u64, EmitterName::PSM33 as u64, EmitterName::PuffBall as u64, EmitterName::QuadradarVI as u64, EmitterName::QW1A as u64, EmitterName::Phazotron1RS21E as u64, EmitterName::PVS200 as u64, EmitterName::PVS2000 as u64, EmitterName::R330ZH as u64, EmitterName::R045 as u64, EmitterName::R76 as u64, EmitterName::R934B as u64, EmitterName::RA20 as u64, EmitterName::RA723 as u64, EmitterName::R41XXX as u64, EmitterName::RAC3D as u64, EmitterName::RAC30 as u64, EmitterName::R423AM as u64, EmitterName::Racal1229 as u64, EmitterName::DECCA1230 as u64, EmitterName::RacalAC2690BT as u64, EmitterName::RacalDecca1216 as u64, EmitterName::RacalDECCA20V909 as u64, EmitterName::RacalDecca360 as u64, EmitterName::RacalDeccaAC1290 as u64, EmitterName::RacalDeccaTM1229 as u64, EmitterName::RacalDeccaTM1626 as u64, EmitterName::RacalDRBN34A as u64, EmitterName::RADAMHR as u64, EmitterName::Radar24 as u64, EmitterName::RADARPILOT1000 as u64, EmitterName::RADARPILOT1100 as u64, EmitterName::RAJENDRA as u64, EmitterName::RAN7S as u64, EmitterName::RAN10S as u64, EmitterName::RAN11LX as u64, EmitterName::Rani as u64, EmitterName::RAPHAELTH as u64, EmitterName::RapierTA as u64, EmitterName::Rapier2000TA as u64, EmitterName::RapierMG as u64, EmitterName::RASCAR3400C as u64, EmitterName::Rashmi as u64, EmitterName::Rasit as u64, EmitterName::Rasit3190B as u64, EmitterName::RAT31DLM as u64, EmitterName::RAT31DL as u64, EmitterName::RAT31S as u64, EmitterName::RAT8S as u64, EmitterName::RAT31SL as u64, EmitterName::RavenES05 as u64, EmitterName::RATAC as u64, EmitterName::RAWL as u64, EmitterName::Rattler as u64, EmitterName::RAWS as u64, EmitterName::RAWL02 as u64, EmitterName::Raytheon1220 as u64, EmitterName::RAWS03 as u64, EmitterName::Raytheon1210xx as u64, EmitterName::Raytheon1302 as u64, EmitterName::Raytheon1500 as u64, EmitterName::Raytheon1645 as u64, EmitterName::Raytheon1650 as u64, EmitterName::Raytheon1900 as u64, EmitterName::Raytheon2502 as u64, EmitterName::RaytheonAnschutzNautoScanNX as u64, EmitterName::RaytheonR41 as u64, EmitterName::RaytheonRM10256X as u64, EmitterName::RaytheonSL72 as u64, EmitterName::RaytheonTM16506X as u64, EmitterName::RaytheonTM166012S as u64, EmitterName::RAY1220XR as u64, EmitterName::RAY1401 as u64, EmitterName::Ray2900 as u64, EmitterName::RaymarineRD218 as u64, EmitterName::Raypath as u64, EmitterName::RaytheonPathfinderSTmk2 as u64, EmitterName::RBE2 as u64, EmitterName::RBE2AA as u64, EmitterName::RCT180 as u64, EmitterName::RDM as u64, EmitterName::RDM3 as u64, EmitterName::RDI as u64, EmitterName::RDY as u64, EmitterName::RDY3 as u64, EmitterName::RDS86 as u64, EmitterName::RDN72 as u64, EmitterName::RDR1A as u64, EmitterName::RDR1E as u64, EmitterName::RDR4A as u64, EmitterName::RDR150 as u64, EmitterName::RDR160XD as u64, EmitterName::RDR230HP as u64, EmitterName::RDR1100 as u64, EmitterName::RDR1150 as u64, EmitterName::RDR1200 as u64, EmitterName::RDR1400 as u64, EmitterName::RDR1400C as u64, EmitterName::RDR4000_1 as u64, EmitterName::RDR4000_2 as u64, EmitterName::RDR1500 as u64, EmitterName::RiceCake as u64, EmitterName::RDR1600 as u64, EmitterName::RDR2000 as u64, EmitterName::RDR1700B as u64, EmitterName::Remora as u64, EmitterName::RiceField as u64, EmitterName::REC1A as u64, EmitterName::REC1B as u64, EmitterName::REC1C as u64, EmitterName::ResolveEAS as u64, EmitterName::RiceCupC as u64, EmitterName::REL6E as u64, EmitterName::REC1 as u64, EmitterName::RiceBowl as u64, EmitterName::ImprovedReporter as u64, EmitterName::RiceBug as u64, EmitterName::RiceCup as u64, EmitterName::RiceLamp as u64, EmitterName::REVATHI as u64, EmitterName::REZONANS as u64, EmitterName::RGMUGM109B as u64, EmitterName::RGMUGM109EHomingRadar as u64, EmitterName::RicePad as u64, EmitterName::RKL526 as u64, EmitterName::RKZ764 as u64, EmitterName::RKZ766 as u64, EmitterName::RKL165 as u64, EmitterName::RKL609 as u64, EmitterName::RKL800 as u64, EmitterName::RKZ761 as u64, EmitterName::RKZ2000 as u64, EmitterName::RIS4CA as u64, EmitterName::RL2000 as u64, EmitterName::RL41 as u64, EmitterName::RIR778 as u64, EmitterName::RISAT as u64, EmitterName::RLMS as u64, EmitterName::RimHatESMECMSuite as u64, EmitterName::RiceScoop as u64, EmitterName::RiceScreen as u64, EmitterName::DECCATM1070A as u64, EmitterName::RM370BT as u64, EmitterName::RockwellCollinsFMR200X as u64, EmitterName::RM2312 as u64, EmitterName::RM23123 as u64, EmitterName::RMT0100A as u64, EmitterName::RN222 as u64, EmitterName::ROLAND2 as u64, EmitterName::ROLANDBN as u64, EmitterName::ROLANDMG as u64, EmitterName::ROLANDTA as u64, EmitterName::ROLANDTT as u64, EmitterName::ROTODOME as u64, EmitterName::RoundBall as u64, EmitterName::RP379DTiradaD as u64, EmitterName::RP3 as u64, EmitterName::RP4G as u64, EmitterName::RoundHouse as u64, EmitterName::RoundHouseB as u64, EmitterName::RPR117 as u64, EmitterName::RS0250 as u64, EmitterName::RSR210N as u64, EmitterName::RT0250 as u64, EmitterName::RTA4100 as u64, EmitterName::RTN1A as u64, EmitterName::RTN25X as u64, EmitterName::RTS6400 as u64, EmitterName::RubyRake as u64, EmitterName::RumSling as u64, EmitterName::RumSlingRO as u64, EmitterName::RumSlingTT as u64, EmitterName::RV2 as u64, EmitterName::RV3 as u64, EmitterName::RV5 as u64, EmitterName::RV10 as u64, EmitterName::RV15M as u64, EmitterName::RV17 as u64, EmitterName::RV18 as u64, EmitterName::RV21 as u64, EmitterName::RV21B as u64, EmitterName::RV25 as u64, EmitterName::RV377 as u64, EmitterName::RVUM as u64, EmitterName::RWD8 as u64, EmitterName::RXN260 as u64, EmitterName::RyeHouse as u64, EmitterName::S1810CD as u64, EmitterName::Sahab as u64, EmitterName::Salamandre as u64, EmitterName::SamyungSMR7200 as u64, EmitterName::S1850M as u64, EmitterName::S511 as u64, EmitterName::S512 as u64, EmitterName::S600 as u64, EmitterName::S604 as u64, EmitterName::S763LANZA3D as u64, EmitterName::S613 as u64, EmitterName::S631 as u64, EmitterName::S654 as u64, EmitterName::S669 as u64, EmitterName::SA2Guideline as u64, EmitterName::S244 as u64, EmitterName::S711 as u64, EmitterName::SA3Goa as u64, EmitterName::SA8GeckoDT as u64, EmitterName::SA12TELARILL as u64, EmitterName::SA23TELIlluminator as u64, EmitterName::SABERM60 as u64, EmitterName::Samovar as u64, EmitterName::Sampson as u64, EmitterName::SAN7GadflyTI as u64, EmitterName::SAN11Cads1UN as u64, EmitterName::SaccadeMH as u64, EmitterName::SaltPotAB as u64, EmitterName::SAP14 as u64, EmitterName::SAP518 as u64, EmitterName::SAP518M as u64, EmitterName::SandBar as u64, EmitterName::SAPechora2MTT as u64, EmitterName::SAR as u64, EmitterName::SATRAPE as u64, EmitterName::SATURNEII as u64, EmitterName::ScanCan as u64, EmitterName::ScanFix as u64, EmitterName::ScanOdd as u64, EmitterName::SCANTER1002 as u64, EmitterName::SCANTER2001 as u64, EmitterName::SCANTER2002 as u64, EmitterName::SCANTER2100 as u64, EmitterName::SCANTER4002 as u64, EmitterName::SCANTER4100 as u64, EmitterName::SCANTER5102 as u64, EmitterName::SCANTER5502 as u64, EmitterName::SCANTER6000 as u64, EmitterName::SCANTER6002 as u64, EmitterName::ScanterMil009 as u64, EmitterName::ScanThree as u64, EmitterName::SCANTERMILS as u64, EmitterName::ScanterSMR as u64, EmitterName::SCANTER as u64, EmitterName::SCORADS as u64, EmitterName::Scimitar as u64, EmitterName::STAR2000 as u64, EmitterName::SCOREBOARD as u64, EmitterName::ScoopPair as u64, EmitterName::ScoupPlate as u64, EmitterName::SCOUT as u64, EmitterName::SCR584 as u64, EmitterName::SeaArcher2 as u64, EmitterName::SeaBasedXBand as u64, EmitterName::SeaDragon as u64, EmitterName::SeaEagle as u64, EmitterName::SeaEagleSC as u64, EmitterName::SEAFALCON as u64, EmitterName::SeaGiraffeAMB as u64, EmitterName::Seaguard as u64, EmitterName::SeaHawkSHNX12 as u64, EmitterName::SeaHunter4MG as u64, EmitterName::SeaHunter4TA as u64, EmitterName::SeaHunter4TT as u64, EmitterName::SeaGull as u64, EmitterName::SeaMaster400 as u64, EmitterName::SeaNet as u64, EmitterName::SeaSparrow as u64, EmitterName::SeaSpray as u64, EmitterName::SeaTiger as u64, EmitterName::SeaTigerM as u64, EmitterName::Seastar as u64, EmitterName::Searchwater as u64, EmitterName::Searchwater2000 as u64, EmitterName::SEASONDE as u64, EmitterName::SEASPRAY7000E as u64, EmitterName::SeaVue as u64, EmitterName::SeasprayMk3 as u64, EmitterName::SeleniaOrion7 as u64, EmitterName::Seleniatype912 as u64, EmitterName::SelenniaRAN12LX as u64, EmitterName::SeleniaRAN20S as u64, EmitterName::SelenniaRTN10X as u64, EmitterName::SeliniaARP1645 as u64, EmitterName::SENTIRM20 as u64, EmitterName::SERDAR as u64, EmitterName::SERHAT as u64, EmitterName::Series10CompactSubmarineRadarCSR as u64, EmitterName::SERIES52 as u64, EmitterName::SERIES320 as u64, EmitterName::SG as u64, EmitterName::SGJ02 as u64, EmitterName::SGJ03 as u64, EmitterName::SGR10200 as u64, EmitterName::SGR10302 as u64, EmitterName::SGR104 as u64, EmitterName::Shahed129SAR as u64, EmitterName::SHAHINE as u64, EmitterName::SheetBend as u64, EmitterName::SheetCurve as u64, EmitterName::SHIKRA as u64, EmitterName::ShipGlobe as u64, EmitterName::ShipWheel as u64, EmitterName::SGR114 as u64, EmitterName::ShoreWalkA as u64, EmitterName::ShortHorn as u64, EmitterName::ShotDome as u64, EmitterName::SideGlobeJN as u64, EmitterName::PRV11 as u64, EmitterName::SideWalkA as u64, EmitterName::SignaalDA02 as u64, EmitterName::SignaalDA05 as u64, EmitterName::SignaalDA08 as u64, EmitterName::SignaalDA082LS as u64, EmitterName::SignaalLW04 as u64, EmitterName::SignaalLW08 as u64, EmitterName::SignaalLWOR as u64, EmitterName::SignaalM45 as u64, EmitterName::SignaalMW08 as u64, EmitterName::SignaalSMART as u64, EmitterName::SignaalSTING as u64, EmitterName::SignaalSTIR as u64, EmitterName::SignaalSTIR1_8M as u64, EmitterName::SignaalSTIR24M as u64, EmitterName::SignaalWM202 as u64, EmitterName::SignaalWM25 as u64, EmitterName::SignaalWM27 as u64, EmitterName::SignaalWM28 as u64, EmitterName::SignaalZW01 as u64, EmitterName::SignaalZW06 as u64, EmitterName::SignaalZW07 as u64, EmitterName::SignaalZW0800 as u64, EmitterName::SIMRAD3G as u64, EmitterName::SIMRAD4G as u64, EmitterName::SimradCA54 as u64, EmitterName::SIMRADHalo6 as u64, EmitterName::SkiPole as u64, EmitterName::SkinHead as u64, EmitterName::SkipSpin as u64, EmitterName::SKYFENDER as u64, EmitterName::SkyWave as u64, EmitterName::SkyguardB as u64, EmitterName::SKYGUARDTA as u64, EmitterName::SKYGUARDTT as u64, EmitterName::SkyguardLR as u64, EmitterName::Skymaster as u64, EmitterName::SkyWatch as u64, EmitterName::SkyRanger as u64, EmitterName::SKYSHADOW as u64, EmitterName::SKYSHIELDTA as u64, EmitterName::SL as u64, EmitterName::SLALQ234 as u64, EmitterName::SlapShot as u64, EmitterName::SlapShotG as u64, EmitterName::SLC2 as u64, EmitterName::SLC2E as u64, EmitterName::SLC4 as u64, EmitterName::SlimNet as u64, EmitterName::SlotBackA as u64, EmitterName::SlotBackILL as u64, EmitterName::SlotBackB as u64, EmitterName::SlotBackIV as u64, EmitterName::SlotBackBTopaz as u64, EmitterName::SlotBackE as u64, EmitterName::SlotBackG as u64, EmitterName::SlotBackVI as u64, EmitterName::SlotRest as u64, EmitterName::SM674AUPM as u64, EmitterName::SMA3RM as u64, EmitterName::SMA3RM20 as u64, EmitterName::SMA3RM20ASMG as u64, EmitterName::SMABPS704 as u64, EmitterName::SMASPIN749V2 as u64, EmitterName::SMASPN703 as u64, EmitterName::SMASPN751 as u64, EmitterName::SMASPOS748 as u64, EmitterName::SMASPQ2 as u64, EmitterName::SMASPQ2D as u64, EmitterName::SMASPQ701 as u64, EmitterName::SMASPS702 as u64, EmitterName::SMAST2OTOMATIIMH as u64, EmitterName::SR47A as u64, EmitterName::SMA718Beacon as u64, EmitterName::SmallFred as u64, EmitterName::SMARTS as u64, EmitterName::SMARTSMk2 as u64, EmitterName::SMARTL as u64, EmitterName::SM932 as u64, EmitterName::SmogLamp as u64, EmitterName::SnapShot as u64, EmitterName::SnoopDrift as u64, EmitterName::SnoopHalf as u64, EmitterName::SnoopHead as u64, EmitterName::SnoopPair as u64, EmitterName::SnoopPing1 as u64, EmitterName::SnoopPlate as u64, EmitterName::SnoopPing as u64, EmitterName::SnoopSlab as u64, EmitterName::SnoopTray as u64, EmitterName::SnoopTray1 as u64, EmitterName::SnoopTray2 as u64, EmitterName::SNOOPTRAY3 as u64, EmitterName::SnoopWatch as u64, EmitterName::_9S18M1 as u64, EmitterName::_9S18M1E as u64, EmitterName::SPB7 as u64, EmitterName::SnowDrop as u64, EmitterName::SNW10 as u64, EmitterName::SO1 as u64, EmitterName::SO12 as u64, EmitterName::SOACommunist as u64, EmitterName::SO69 as u64, EmitterName::SockEye as u64, EmitterName::SOM64 as u64, EmitterName::Sopka as u64, EmitterName::Sorbsiya as u64, EmitterName::SorbtsiyaL005 as u64, EmitterName::SorbtsiyaL005S as u64, EmitterName::SPADASIR as u64, EmitterName::SPADATT as u64, EmitterName::SparrowILL as u64, EmitterName::SPERRYRASCAR as u64, EmitterName::SPECTRA as u64, EmitterName::SPEAR3MMW as u64, EmitterName::SperryM3 as u64, EmitterName::SPERRYVISIONMASTERFT as u64, EmitterName::SPEXER2000 as u64, EmitterName::SPG53F as u64, EmitterName::SPG70 as u64, EmitterName::SPG74 as u64, EmitterName::SPG75 as u64, EmitterName::SPG76 as u64, EmitterName::SpinScanA as u64, EmitterName::SpinScanB as u64, EmitterName::SpinTrough as u64, EmitterName::SPINODADDAWTR as u64, EmitterName::SPJ40 as u64, EmitterName::SplashDrop as u64, EmitterName::SPN2 as u64, EmitterName::SPN4 as u64, EmitterName::SPN30 as u64, EmitterName::SPN35A as u64, EmitterName::SPN41 as u64, EmitterName::SPN42 as u64, EmitterName::SPN43A as u64, EmitterName::SPN43B as u64, EmitterName::SPN44 as u64, EmitterName::SPN46 as u64, EmitterName::SPN703 as u64, EmitterName::SPN720 as u64, EmitterName::SPN7281 as u64, EmitterName::SPN748 as u64, EmitterName::SPN750 as u64, EmitterName::SPO8 as u64, EmitterName::SPN753G as u64, EmitterName::SpongeCake as u64, EmitterName::P12 as u64, EmitterName::P18SpoonRestA as u64, EmitterName::P18SpoonRestB as u64, EmitterName::P18SpoonRestC as u64, EmitterName::P18MH2 as u64, EmitterName::SporkRest as u64, EmitterName::SPQ712 as u64, EmitterName::SPR2 as u64, EmitterName::SPR51 as u64, EmitterName::SPS5FASOL as u64, EmitterName::SPS6 as u64, EmitterName::SPS6C as u64, EmitterName::SPS10F as u64, EmitterName::SPS12 as u64, EmitterName::SPS22NBUKET as u64, EmitterName::SPS33NBUKET as u64, EmitterName::SPS44NBUKET as u64, EmitterName::SPS55NBUKET as u64, EmitterName::SPS58 as u64, EmitterName::SPS62 as u64, EmitterName::SPS100K as u64, EmitterName::SPS64 as u64, EmitterName::SPS141 as u64, EmitterName::SPS142 as u64, EmitterName::SPS143 as u64, EmitterName::SPS151 as u64, EmitterName::SPS152 as u64, EmitterName::SPS153 as u64, EmitterName::SPS160Geran as u64, EmitterName::SPS161 as u64, EmitterName::SPS95K as u64, EmitterName::SPS171Jammer as u64, EmitterName::SPS172Jammer as u64, EmitterName::SPS768 as u64, EmitterName::SPS540K as u64, EmitterName::SPS550KMF as u64, EmitterName::SPS774 as u64, EmitterName::SPY790 as u64, EmitterName::SquareHead as u64, EmitterName::SquarePair as u64, EmitterName::SquareSlot as u64, EmitterName::SquareTie as u64, EmitterName::Shmel as u64, EmitterName::P15M as u64, EmitterName::SquintEye as u64, EmitterName::SQUIRE as u64, EmitterName::SR2410C as u64, EmitterName::SR47BG as u64, EmitterName::SREM5 as u64, EmitterName::SRN6 as u64, EmitterName::SRN15 as u64, EmitterName::SRN206 as u64, EmitterName::SRN745 as u64, EmitterName::SRO1 as u64, EmitterName::SRO2 as u64, EmitterName::SSC2BSamletMG as u64, EmitterName::SSN2ABCSSC as u64, EmitterName::SSN2ABCSSC2A3A2MH as u64, EmitterName::SSN2CSeeker as u64, EmitterName::SSN2CDStyx as u64, EmitterName::SSN2CDStyxCDMH as u64, EmitterName::SSN2CStyxAL as u64, EmitterName::SSN2DStyxAL as u64, EmitterName::SSN2SSCSSC18BN as u64, EmitterName::SSN3BSepalAL as u64, EmitterName::SSN3BSepalMH as u64, EmitterName::SSN7Starbright as u64, EmitterName::SSN9Siren as u64, EmitterName::SSN9SirenAL as u64, EmitterName::SSN9SirenMH as u64, EmitterName::SSN10AFL10mmWMH as u64, EmitterName::SSN11Nasr1mmWMH as u64, EmitterName::SSN12SandboxAL as u64, EmitterName::SSN12YJ83JmmWMH as u64, EmitterName::SSN12SandboxMH as u64, EmitterName::SSNX13Shredder as u64, EmitterName::SSN14BSilexAL as u64, EmitterName::SSN19Shipwreck as u64, EmitterName::SSN19ShipwreckAL as u64, EmitterName::SSN19ShipwreckMH as u64, EmitterName::SSN21AL as u64, EmitterName::SSN22Sunburn as u64, EmitterName::SSN22SunburnMH as u64, EmitterName::SSN22SunburnAL as u64, EmitterName::SSN25SwitchbladeMH as u64, EmitterName::SSN26StrobileMMWMH as u64, EmitterName::SSN27SizzlerMH as u64, EmitterName::SSN27ASizzlerAL as u64, EmitterName::STINGEOMk2 as u64, EmitterName::STIR1_2EOMk2 as u64, EmitterName::STIR2_4HPMk2 as u64, EmitterName::StoneCake as u64, EmitterName::STR41 as u64, EmitterName::ST858 as u64, EmitterName::START1M as u64, EmitterName::STENTOR as u64, EmitterName::StormShadowAHR as u64, EmitterName::STRAIGHTFLUSH as u64, EmitterName::StraightFlushTA as u64, EmitterName::StraightFlushTT as u64, EmitterName::StraightFlushILL as u64, EmitterName::StrikeOut as u64, EmitterName::StrutCurve as u64, EmitterName::StrutPair as u64, EmitterName::StrutPair1 as u64, EmitterName::StrutPair2 as u64, EmitterName::SunVisor as u64, EmitterName::SUPERDARN as u64, EmitterName::Superfledermaus as u64, EmitterName::Supersearcher as u64, EmitterName::SwiftRod1 as u64, EmitterName::SwiftRod2 as u64, EmitterName::SYMPHONY as u64, EmitterName::SYNAPSISMk2 as u64, EmitterName::SY80 as u64, EmitterName::T1166 as u64, EmitterName::T1171 as u64, EmitterName::T1202 as u64, EmitterName::T6004 as u64, EmitterName::T6031 as u64, EmitterName::T8067 as u64, EmitterName::T8068 as u64, EmitterName::T8124 as u64, EmitterName::T8408 as u64, EmitterName::T8911 as u64, EmitterName::T8937 as u64, EmitterName::T8944 as u64, EmitterName::T8987 as u64, EmitterName::TA10K as u64, EmitterName::JY11B as u64, EmitterName::TACANSURF as u64, EmitterName::P14_2 as u64, EmitterName::TALLKINGB as u64, EmitterName::TALLKINGC as u64, EmitterName::TallMike as u64, EmitterName::TallPath as u64, EmitterName::TDR94 as u64, EmitterName::TeaSpoon as u64, EmitterName::TeamPlay as u64, EmitterName::TALISMAN as u64, EmitterName::TeamWork as u64, EmitterName::T1135 as u64, EmitterName::TANCANSURF as u64, EmitterName::TECSAR as u64, EmitterName::TERRASARX as u64, EmitterName::TESAR as u64, EmitterName::THAADGBR as u64, EmitterName::ThalesRDY2 as u64, EmitterName::ThalesNederlandSignaalAPAR as u64, EmitterName::ThalesScorpionJammer as u64, EmitterName::ThalesVariant as u64, EmitterName::ThalesICMSJammer as u64, EmitterName::ThalesIMEWSJammer as u64, EmitterName::THD225 as u64, EmitterName::THD1012 as u64, EmitterName::THD1098 as u64, EmitterName::THD1213 as u64, EmitterName::THD1940 as u64, EmitterName::THD1955Palmier as u64, EmitterName::THD5500 as u64, EmitterName::ThirdofKhordad as u64, EmitterName::ThinPath as u64, EmitterName::PRV9 as u64, EmitterName::PRV16 as u64, EmitterName::ThompsonCSFTA10 as u64, EmitterName::ThompsonCSFTHD1040Neptune as u64, EmitterName::ThompsonCSFCalypso as u64, EmitterName::ThompsonCSFCASTOR as u64, EmitterName::ThompsonCSFCastorII as u64, EmitterName::ThomsonCSFDomino30 as u64, EmitterName::ThompsonCSFDRBC32A as u64, EmitterName::ThompsonCSFDRBJ11DE as u64, EmitterName::ThompsonCSFDRBV15A as u64, EmitterName::ThompsonCSFDRBV15C as u64, EmitterName::ThompsonCSFDRBV22D as u64, EmitterName::ThompsonCSFDRBV23B as u64, EmitterName::ThompsonCSFDRUA33 as u64, EmitterName::ThompsonCSFMarsDRVB21A as u64, EmitterName::ThompsonCSFSeaTiger as u64, EmitterName::ThompsonCSFTriton as u64, EmitterName::ThompsonCSFVegawithDRBC32E as u64, EmitterName::ThomsonENR as u64, EmitterName::ThomsonRDI as u64, EmitterName::TierIIPlus as u64, EmitterName::TPS755 as u64, EmitterName::TPS830K as u64, EmitterName::TRS2105 as u64, EmitterName::TR23K as u64, EmitterName::TR23MR as u64, EmitterName::TRAC2100 as u64, EmitterName::TRAC2300 as u64, EmitterName::HT223 as u64, EmitterName::TRADEX as u64, EmitterName::TRAILXI as u64, EmitterName::TRD1211 as u64, EmitterName::TRD1235 as u64, EmitterName::TRS2100 as u64, EmitterName::TRACNG as u64, EmitterName::TieRods as u64, EmitterName::_36D6 as u64, EmitterName::TinTrap as u64, EmitterName::TIRSPONDER as u64, EmitterName::TK25E5 as u64, EmitterName::TMKMk2 as u64, EmitterName::TMXMk2 as u64, EmitterName::ToadStool1 as u64, EmitterName::ToadStool2 as u64, EmitterName::ToadStool3 as u64, EmitterName::ToadStool4 as u64, EmitterName::ToadStool5 as u64, EmitterName::TokenB as u64, EmitterName::TombStone as u64, EmitterName::Tonson as u64, EmitterName::TopBow as u64, EmitterName::TopDome as u64, EmitterName::TopKnot as u64, EmitterName::TopMesh as u64, EmitterName::TopPair as u64, EmitterName::TopPlate as u64, EmitterName::TopPlateB as u64, EmitterName::TopSail as u64, EmitterName::TYPE208 as u64, EmitterName::TopSteer as u64, EmitterName::TopTrough as u64, EmitterName::TornadoGMR as u64, EmitterName::TornadoTFR as u64, EmitterName::ScrumHalfTA as u64, EmitterName::ScrumHalfTT as u64, EmitterName::TORM2TER as u64, EmitterName::ScrumHalfMG as u64, EmitterName::TrackDish as u64, EmitterName::TR47C as u64, EmitterName::TORSOM as u64, EmitterName::TQN2 as u64, EmitterName::TrapDoor as u64, EmitterName::TRD1500 as u64, EmitterName::TrickShotTAR as u64, EmitterName::TrickShotTER as u64, EmitterName::TRISPONDE as u64, EmitterName::TRML as u64, EmitterName::TRS2215 as u64, EmitterName::TRML3D as u64, EmitterName::TRMS as u64, EmitterName::TRS2056 as u64, EmitterName::TRS3010 as u64, EmitterName::TRS2060 as u64, EmitterName::TRS2245 as u64, EmitterName::TRS2310 as u64, EmitterName::TritonG as u64, EmitterName::TRS22XX as u64, EmitterName::TRS3030 as u64, EmitterName::TRS3033 as u64, EmitterName::TRS3203 as u64, EmitterName::TRS3405 as u64, EmitterName::TRS3410 as u64, EmitterName::TRS3415 as u64, EmitterName::TRS3D as u64, EmitterName::TRS3D16 as u64, EmitterName::TRS3D16ES as u64, EmitterName::TRS3D32 as u64, EmitterName::TRS4D as u64, EmitterName::TRSC as u64, EmitterName::TRSN as u64, EmitterName::TS4478A as u64, EmitterName::TSE5000 as u64, EmitterName::TSR333 as u64, EmitterName::TSR793 as u64, EmitterName::TubBrick as u64, EmitterName::TubeArm as u64, EmitterName::TW1374 as u64, EmitterName::TW1378 as u64, EmitterName::TW1446 as u64, EmitterName::TwinEyes as u64, EmitterName::TwinPill as u64, EmitterName::TwinScan as u64, EmitterName::TwinScanRo as u64, EmitterName::TwoSpot as u64, EmitterName::Type071LPD as u64, EmitterName::Type212JA as u64, EmitterName::Type221JA as u64, EmitterName::Type223 as u64, EmitterName::Type80ASM1 as u64, EmitterName::Type120 as u64, EmitterName::Type208 as u64, EmitterName::Type222 as u64, EmitterName::Type226 as u64, EmitterName::Type232H as u64, EmitterName::TYPE245 as u64, EmitterName::TYPE262 as u64, EmitterName::TYPE275 as u64, EmitterName::TYPE278 as u64, EmitterName::TYPE293 as u64, EmitterName::Type341 as u64, EmitterName::TYPE313 as u64, EmitterName::Type305A as u64, EmitterName::Type334 as u64, EmitterName::Type342 as u64, EmitterName::TYPE343SUNVISORB as u64, EmitterName::Type344 as u64, EmitterName::Type345 as u64, EmitterName::Type346 as u64, EmitterName::Type349A as u64, EmitterName::TYPE347B as u64, EmitterName::Type347G as u64, EmitterName::Type359 as u64, EmitterName::Type352 as u64, EmitterName::Type360 as u64, EmitterName::Type362ESR1SR47B as u64, EmitterName::Type354 as u64, EmitterName::Type366 as u64, EmitterName::Type363 as u64, EmitterName::Type364 as u64, EmitterName::Type404A as u64, EmitterName::Type405 as u64, EmitterName::TYPE405J as u64, EmitterName::Type408D as u64, EmitterName::Type517B as u64, EmitterName::Type518 as u64, EmitterName::Type589 as u64, EmitterName::TYPE651 as u64, EmitterName::Type753_1 as u64, EmitterName::Type702 as u64, EmitterName::Type704 as u64, EmitterName::Type753_2 as u64, EmitterName::Type756 as u64, EmitterName::TYPE713 as u64, EmitterName::TYPE714 as u64, EmitterName::TYPE702D as u64, EmitterName::TYPE760 as u64, EmitterName::Type760 as u64, EmitterName::Type815 as u64, EmitterName::Type793 as u64, EmitterName::Type8A813 as u64, EmitterName::TYPE901M as u64, EmitterName::TYPE902 as u64, EmitterName::Type902B as u64, EmitterName::TYPE903 as u64, EmitterName::TYPE909TI as u64, EmitterName::TYPE909TT as u64, EmitterName::TYPE910 as u64, EmitterName::TYPE931 as u64, EmitterName::TYPE965 as u64, EmitterName::TYPE967 as u64, EmitterName::TYPE968 as u64, EmitterName::TYPE974 as u64, EmitterName::TYPE975 as u64, EmitterName::TYPE978 as u64, EmitterName::Type981 as u64, EmitterName::Type9813 as u64, EmitterName::TYPE982 as u64, EmitterName::Type984 as u64, EmitterName::Type985 as u64, EmitterName::TYPE992 as u64, EmitterName::TYPE993 as u64, EmitterName::TYPE994 as u64, EmitterName::Type996 as u64, EmitterName::Type997Artisan as u64, EmitterName::TYPE1006_1 as u64, EmitterName::TYPE1006_2 as u64, EmitterName::TYPE1022 as u64, EmitterName::Type1047 as u64, EmitterName::Type1048 as u64, EmitterName::Type1474 as u64, EmitterName::Type1493 as u64, EmitterName::ULTRA as u64, EmitterName::UKMK10 as u64, EmitterName::UPS220C as u64, EmitterName::UPX110 as u64, EmitterName::UPX27 as u64, EmitterName::URN20 as u64, EmitterName::UTESA as u64, EmitterName::UTEST as u64, EmitterName::URN25 as u64, EmitterName::VIGILANT as u64, EmitterName::VitebskL370Jammer as u64, EmitterName::VOLEXIIIIV as u64, EmitterName::VOLGA as u64, EmitterName::VORONEZHDM as u64, EmitterName::VOSTOK as u64, EmitterName::VOSTOKE as u64, EmitterName::VSR as u64, EmitterName::VOSTOK3D as u64, EmitterName::VSTARPT as u64, EmitterName::W160 as u64, EmitterName::W1028 as u64, EmitterName::W8818 as u64, EmitterName::W8838 as u64, EmitterName::W8852 as u64, EmitterName::WALLBOARD as u64, EmitterName::WallRust as u64, EmitterName::WAS74S as u64, EmitterName::WaspHead as u64, EmitterName::WATCHDOG as u64, EmitterName::WatchGuard as u64, EmitterName::Watchman as u64, EmitterName::WAVESTORM as u64, EmitterName::WATCHMANS as u64, EmitterName::WATCHMANT as u64, EmitterName::WEATHERSCOUT2 as u64, EmitterName::WesternElectricMK10 as u64, EmitterName::WestinghouseADR4LRSR as u64, EmitterName::WestinghouseElectricSPG50 as u64, EmitterName::WestinghouseElectricW120 as u64, EmitterName::WestinghouseSPS29C as u64, EmitterName::WestinghouseSPS37 as u64, EmitterName::WetEye as u64, EmitterName::WetEye2 as u64, EmitterName::WetEyeMod as u64, EmitterName::WF44S as u64, EmitterName::WGU41B as u64, EmitterName::WGU44B as u64, EmitterName::Whiff as u64, EmitterName::WhiffBrick as u64, EmitterName::WhiffFire as u64, EmitterName::WHITEHOUSE as u64, EmitterName::WideMat as u64, EmitterName::WineGlassJammer as u64, EmitterName::WildCard as u64, EmitterName::WILDCAT as u64, EmitterName::WitchEight as u64, EmitterName::WitchFive as u64, EmitterName::WLR as u64, EmitterName::WM2XSeries as u64, EmitterName::WM2XSeriesCAS as u64, EmitterName::WR10X as u64, EmitterName::WR2100 as u64, EmitterName::WSR74C as u64, EmitterName::WSR74S as u64, EmitterName::WSR81 as u64, EmitterName::WXR700C as u64, EmitterName::WXR2100 as u64, EmitterName::WXR2100MSTT as u64, EmitterName::WoodGage as u64, EmitterName::XTAR25 as u64, EmitterName::XTAR3D as u64, EmitterName::YAOGAN3 as u64, EmitterName::Yaogan29 as u64, EmitterName::YardRake as u64, EmitterName::YH96 as u64, EmitterName::YewLoop as u64, EmitterName::YITIANADS as u64, EmitterName::YD3 as u64, EmitterName::YJ12MH as u64, EmitterName::YJ62MH as u64, EmitterName::YJ82MH as u64, EmitterName::YJ83MH as u64, EmitterName::YLC2 as u64, EmitterName::YLC2A as u64, EmitterName::YLC4 as u64, EmitterName::YLC6 as u64, EmitterName::YLC6M as u64, EmitterName::YLC8 as u64, EmitterName::YLC8B as u64, EmitterName::YLC18 as u64, EmitterName::YoYo as u64, EmitterName::ZaslonA as u64, EmitterName::ZaslonMultipurpose as u64, EmitterName::ZooPark1 as u64, EmitterName::ZPS6 as u64, EmitterName::ZOOPARK3 as u64, EmitterName::ZD12 as u64, EmitterName::ZW06 as u64, EmitterName::ANALQ1361 as u64, EmitterName::ANALQ1362 as u64, EmitterName::ANALQ1363 as u64, EmitterName::ANALQ1364 as u64, EmitterName::ANALQ1365 as u64, EmitterName::ANALQ1622 as u64, EmitterName::ANALQ1623 as u64, EmitterName::ANALQ1624 as u64, EmitterName::ZhukM as u64, EmitterName::ZHUKMAE as u64, EmitterName::ZHUKME as u64, EmitterName::ZHUKMME as u64, EmitterName::ZhukMSE as u64], decode: |mut b| { let v = EmitterName::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EmitterName as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EmitterName::_12456X, EmitterName::_1L117, EmitterName::_1L121E, EmitterName::_1L250, EmitterName::_1L220U, EmitterName::_1L1221E, EmitterName::_1RL257, EmitterName::_1RL138, EmitterName::_1RL257Jammer, EmitterName::_5N20, EmitterName::_5H62B, EmitterName::_5P10, EmitterName::_5P10E, EmitterName::_5P1001, EmitterName::_5P1001E, EmitterName::_5P1002, EmitterName::_5P1002E, EmitterName::_5P1003, EmitterName::_5P1003E, EmitterName::_5P10EMOD, EmitterName::_621A3, EmitterName::_860F1AL101, EmitterName::_9B1103M2, EmitterName::_1226DECCAMIL, EmitterName::_9B1348, EmitterName::_3KM6, EmitterName::_9KR400, EmitterName::_50N6A, EmitterName::_55G61, EmitterName::_59N6, EmitterName::_5N69, EmitterName::_67N6, EmitterName::_76T6, EmitterName::_77T6ABM, EmitterName::_80K6, EmitterName::_91N6A, EmitterName::_96L6E, EmitterName::_96L6TsP, EmitterName::_9C18M3, EmitterName::_9C36M, EmitterName::_9GR400, EmitterName::_9GR400A, EmitterName::_9GR600, EmitterName::_9GR606, EmitterName::_9LV100, EmitterName::_9LV200TA, EmitterName::_9LV200TV, EmitterName::_9LV200TT, EmitterName::_9LV200MKIII, EmitterName::_9LV326, EmitterName::_9M96E2Seeker, EmitterName::_9S15M2, EmitterName::_9S19M2, EmitterName::_9S19ME, EmitterName::_9S32M, EmitterName::_9S32ME, EmitterName::_9S36E, EmitterName::_9S112, EmitterName::A310Z, EmitterName::A325A, EmitterName::A346Z, EmitterName::A353B, EmitterName::A372A, EmitterName::A372B, EmitterName::A372C, EmitterName::A377A, EmitterName::A377B, EmitterName::A380Z, EmitterName::A381Z, EmitterName::A398Z, EmitterName::A403Z, EmitterName::A409A, EmitterName::A418A, EmitterName::A419Z, EmitterName::A429Z, EmitterName::A432Z, EmitterName::A434Z, EmitterName::AA6CAcrid, EmitterName::AA7CApex, EmitterName::A401A, EmitterName::AA10A, EmitterName::AA10CAlamoC, EmitterName::AA13ArrowSeeker, EmitterName::AAM4BMH, EmitterName::AA300, EmitterName::AA12Seeker, EmitterName::AD4A, EmitterName::ADES, EmitterName::ADS4LRSR, EmitterName::ACR430, EmitterName::Agave, EmitterName::ACSOPRIE, EmitterName::ABD2000, EmitterName::ADACMK1, EmitterName::ADACMK2, EmitterName::ADAR, EmitterName::ADOUR, EmitterName::AGAT9B1348, EmitterName::AdrosKT01AV, EmitterName::Agat9E420, EmitterName::AGM158JASSMSAR, EmitterName::AGM88HARMMMW, EmitterName::AGRION15, EmitterName::AHV7, EmitterName::AHV17, EmitterName::AIMK23, EmitterName::AIDAII, EmitterName::AIM120A, EmitterName::AIM7MSparrow, EmitterName::_1L271, EmitterName::ALA51, EmitterName::AlbatrosMK2, EmitterName::ALT50, EmitterName::ALTAIR, EmitterName::AMAPS717, EmitterName::AMES13MK1, EmitterName::WGU16B, EmitterName::_1L133BoxSpring, EmitterName::_1L133BoxSpringB, EmitterName::AMDR3D, EmitterName::ANASPS502, EmitterName::Anemone, EmitterName::ANRITSUElectricAR30A, EmitterName::AntilopeV, EmitterName::ANAAQ24, EmitterName::ANADM160, EmitterName::AN_ALE50, EmitterName::AN_ALQ76, EmitterName::AN_ALQ99, EmitterName::AN_ALQ99Band4, EmitterName::AN_ALQ99LBT, EmitterName::AN_ALQ100, EmitterName::AN_ALQ101, EmitterName::AN_ALQ119, EmitterName::AN_ALQ122, EmitterName::AN_ALQ126A, EmitterName::AN_ALQ128, EmitterName::AN_ALQ126B, EmitterName::AN_ALQ131, EmitterName::AN_ALQ131BlkII, EmitterName::AN_ALQ135CD, EmitterName::AN_ALQ144A3, EmitterName::AN_ALQ153, EmitterName::AN_ALQ157Jammer, EmitterName::AN_ALQ155, EmitterName::AN_ALQ156, EmitterName::AN_ALQ161A, EmitterName::AN_ALQ161, EmitterName::AN_ALQ162, EmitterName::AN_ALQ164, EmitterName::AN_ALQ165, EmitterName::AN_ALQ187Jammer, EmitterName::AN_ALQ167, EmitterName::AN_ALQ1721, EmitterName::AN_ALQ1722, EmitterName::AN_ALQ1723, EmitterName::AN_ALQ176, EmitterName::AN_ALQ178, EmitterName::AN_ALQ184, EmitterName::AN_ALQ1849, EmitterName::AN_ALQ188, EmitterName::AN_ALQ214, EmitterName::AN_ALR56, EmitterName::AN_ALQ221, EmitterName::AN_ALR69, EmitterName::AN_ALQ211, EmitterName::AN_ALT16A, EmitterName::AN_ALQ173, EmitterName::AN_ALT28, EmitterName::AN_ALR66BJammer, EmitterName::AN_ALT32A, EmitterName::AN_ALQ196, EmitterName::ALQ249NextGenerationJammer, EmitterName::AN_ALQ2401Jammer, EmitterName::AN_ALR66BJammer2, EmitterName::AN_APD10, EmitterName::AN_ALQ213, EmitterName::ALQ214A45Jammer, EmitterName::AN_ALQ218, EmitterName::ANAPG50, EmitterName::ANAPG53, EmitterName::ANAPG59, EmitterName::ANAPG63, EmitterName::ANAPG631, EmitterName::ANAPG632, EmitterName::ANAPG633, EmitterName::ANAPG65, EmitterName::ANAPG66, EmitterName::ANAPG66V, EmitterName::ANAPG66V2, EmitterName::ANAPG67, EmitterName::ANAPG68, EmitterName::ANAPG689, EmitterName::ANAPG70, EmitterName::ANAPG71, EmitterName::ANAPG73, EmitterName::ANAPG77, EmitterName::ANAPG78, EmitterName::ANAPG79, EmitterName::ANAPG80, EmitterName::ANAPG81, EmitterName::ANAPG821, EmitterName::ANAPG83, EmitterName::ANAPG502, EmitterName::ANAPN1, EmitterName::ANAPN22, EmitterName::ANAPN59, EmitterName::ANAPN69, EmitterName::ANAPN81, EmitterName::ANAPN102, EmitterName::ANAPN117, EmitterName::ANAPN118, EmitterName::ANAPN122, EmitterName::ANAPN130, EmitterName::ANAPN131, EmitterName::ANAPN133, EmitterName::ANAPN134, EmitterName::ANAPN141, EmitterName::ANAPN147, EmitterName::ANAPN150, EmitterName::ANAPN153, EmitterName::ANAPN154, EmitterName::ANAPN155, EmitterName::ANAPN159, EmitterName::ANAPN177, EmitterName::ANAPN179, EmitterName::ANAPN169, EmitterName::ANAPN182, EmitterName::ANAPN187, EmitterName::ANAPN190, EmitterName::ANAPN194, EmitterName::ANAPN195, EmitterName::ANAPN198, EmitterName::ANAPN200, EmitterName::ANAPN202, EmitterName::ANAPN215, EmitterName::ANAPN209, EmitterName::ANAPN209D, EmitterName::ANAPN209A, EmitterName::ANAPN215_2, EmitterName::ANAPN217, EmitterName::ANAPN218, EmitterName::ANAPN224, EmitterName::ANAPN227, EmitterName::ANAPN230, EmitterName::ANAPN232, EmitterName::ANAPN237A, EmitterName::ANAPN234, EmitterName::ANAPN235, EmitterName::ANAPN238, EmitterName::ANAPN222, EmitterName::ANAPN239, EmitterName::ANAPN241, EmitterName::ANAPN242, EmitterName::ANAPN243, EmitterName::ANAPN506, EmitterName::ANAPQ72, EmitterName::ANAPQ99, EmitterName::ANAPQ100, EmitterName::ANAPQ102, EmitterName::ANAPQ107, EmitterName::ANAPQ109, EmitterName::ANAPQ113, EmitterName::ANAPQ120, EmitterName::ANAPQ122, EmitterName::ANAPQ126, EmitterName::ANAPQ128, EmitterName::ANAPQ129, EmitterName::ANAPQ148, EmitterName::ANAPQ150A, EmitterName::ANAPQ153, EmitterName::ANAPQ155, EmitterName::ANAPQ159, EmitterName::ANAPQ164, EmitterName::ANAPQ166, EmitterName::ANAPQ170, EmitterName::ANAPQ174, EmitterName::ANAPQ180, EmitterName::ANAPQ181, EmitterName::ANAPQ186, EmitterName::ANAPS15J, EmitterName::ANAPS162, EmitterName::ANAPS31, EmitterName::ANAPS42, EmitterName::ANAPS80, EmitterName::ANAPS88, EmitterName::ANAPS88A, EmitterName::ANAPS94, EmitterName::ANAPS96, EmitterName::ANAPS113, EmitterName::ANAPS115, EmitterName::ANAPS116, EmitterName::ANAPS120, EmitterName::ANAPS121, EmitterName::ANAPS124, EmitterName::ANAPS125, EmitterName::ANAPS127, EmitterName::ANAPS128, EmitterName::ANAPS130, EmitterName::ANAPS133, EmitterName::ANAPS134, EmitterName::ANAPS137, EmitterName::ANAPS1375, EmitterName::ANAPS137B, EmitterName::ANAPS137B5, EmitterName::ANAPS137D5Elta, EmitterName::ANAPS138, EmitterName::ANAPS139, EmitterName::ANAPS143, EmitterName::ANAPS1431, EmitterName::ANAPS143B, EmitterName::ANAPS1433, EmitterName::ANAPS143B3, EmitterName::ANAPS153, EmitterName::ANAPS154, EmitterName::ANAPS150, EmitterName::ANAPS145, EmitterName::ANAPS147, EmitterName::ANAPS149, EmitterName::ANAPS503, EmitterName::ANAPS504, EmitterName::ANAPS705, EmitterName::ANAPW22, EmitterName::ANAPW23, EmitterName::ANAPX6, EmitterName::ANAPX7, EmitterName::ANAPX39, EmitterName::ANAPX64, EmitterName::ANAPX72, EmitterName::ANAPX76, EmitterName::ANAPX78, EmitterName::ANAPX100, EmitterName::ANAPX101, EmitterName::ANAPX113AIFF, EmitterName::ANAPY1, EmitterName::ANAPY2, EmitterName::ANAPY3, EmitterName::ANAPY7, EmitterName::ANAPY8, EmitterName::ANAPY9, EmitterName::ANAPY10, EmitterName::ANARN21, EmitterName::ANARN52, EmitterName::ANARN84, EmitterName::ANARN118, EmitterName::ANARN153V, EmitterName::ANARN153, EmitterName::ANARW73, EmitterName::ANASB1, EmitterName::ANASG21, EmitterName::ANASN137, EmitterName::ANASN128, EmitterName::ANASQ108, EmitterName::ANASQ239, EmitterName::ANAST502, EmitterName::ANAVQ55, EmitterName::ANAWG9, EmitterName::ANBRN1, EmitterName::ANBPS5, EmitterName::ANBPS9, EmitterName::ANBPS15, EmitterName::ANBPS15H, EmitterName::ANBPS15J, EmitterName::ANBPS16, EmitterName::ANBPS162, EmitterName::ANCPN4, EmitterName::ANCPN18, EmitterName::ANCRM30, EmitterName::ANDPW23, EmitterName::ANDSQ26PhoenixMH, EmitterName::ANDSQ28HarpoonMH, EmitterName::ANFPN1, EmitterName::ANFPN28, EmitterName::ANFPN33, EmitterName::ANFPN40, EmitterName::ANFPN62, EmitterName::ANFPN66, EmitterName::ANFPS8, EmitterName::ANFPN67, EmitterName::ANFPS16, EmitterName::ANFPS5, EmitterName::ANFPS18, EmitterName::ANFPS89, EmitterName::ANFPS49, EmitterName::ANFPS117, EmitterName::ANFPS85, EmitterName::ANFPS88, EmitterName::ANFPS113, EmitterName::ANFPS115, EmitterName::ANFPS20R, EmitterName::ANFPS132, EmitterName::ANFPS77, EmitterName::ANFPS41, EmitterName::ANFPS100A, EmitterName::ANFPS103, EmitterName::ANFPS108, EmitterName::ANGPN12, EmitterName::ANFPS124, EmitterName::ANFPS129, EmitterName::ANGPX6, EmitterName::ANGPX8, EmitterName::ANGRN12, EmitterName::ANMPN14K, EmitterName::ANMPN14, EmitterName::ANMPQ10, EmitterName::ANMPN17, EmitterName::ANMPQ3339465761ILL, EmitterName::ANMPQ34485562TA, EmitterName::ANMPQ49, EmitterName::ANMPQ3550TA, EmitterName::ANMPQ50C, EmitterName::ANMPQ3751TT, EmitterName::ANMPQ43, EmitterName::ANMPQ50, EmitterName::ANMPQ53, EmitterName::ANMPQ63, EmitterName::ANMPQ64, EmitterName::ANSLQ32, EmitterName::ANMPQ65, EmitterName::ANSLQ324, EmitterName::ANSLQ32A, EmitterName::ANSPG34, EmitterName::ANMSQ104, EmitterName::ANMPS36, EmitterName::ANSLQ503, EmitterName::ANSPG48MK25MOD3, EmitterName::ANSPG50, EmitterName::ANSPG51, EmitterName::ANPPQ2, EmitterName::ANPPS15, EmitterName::ANPPS5, EmitterName::ANPPS5D, EmitterName::ANSPG51CWITI, EmitterName::ANSPG51FC, EmitterName::ANSPG51CD, EmitterName::ANSPG52, EmitterName::ANSPG53, EmitterName::ANSPG55B, EmitterName::ANSPG60, EmitterName::ANSPG62, EmitterName::ANSPG503, EmitterName::ANSPN4, EmitterName::ANSPN11, EmitterName::ANSPN35, EmitterName::ANSPN41, EmitterName::ANSPN43, EmitterName::ANSPN43A, EmitterName::ANSPN43C, EmitterName::ANSPN46, EmitterName::ANSPQ2, EmitterName::ANSPQ5A, EmitterName::ANSPQ9A, EmitterName::ANSPQ9B, EmitterName::ANSPQ34, EmitterName::ANSPS4, EmitterName::ANSPS5, EmitterName::ANSPS5C, EmitterName::ANSPS6, EmitterName::ANSPS10, EmitterName::ANSPS21, EmitterName::ANSPS28, EmitterName::ANSPS37, EmitterName::ANSPS39A, EmitterName::ANSPS40, EmitterName::ANSPS41, EmitterName::ANSPS48, EmitterName::ANSPS48C, EmitterName::ANSPS48E, EmitterName::ANSPS49, EmitterName::ANSPS491, EmitterName::ANSPS492, EmitterName::ANSPS493, EmitterName::ANSPS494, EmitterName::ANSPS495, EmitterName::ANSPS496, EmitterName::ANSPS497, EmitterName::ANSPS498, EmitterName::ANSPS49A1, EmitterName::ANSPS52, EmitterName::ANSPS53, EmitterName::ANSPS55, EmitterName::ANSPS52C, EmitterName::ANSPS55CS, EmitterName::ANSPS55SS, EmitterName::ANSPS58, EmitterName::ANSPS58C, EmitterName::ANSPS59, EmitterName::ANSPS64, EmitterName::ANSPS649, EmitterName::SPS6412, EmitterName::ANSPS65, EmitterName::ANSPS66, EmitterName::ANSPS67, EmitterName::ANSPS73_1, EmitterName::ANSPS69, EmitterName::ANSPS73_2, EmitterName::ANSPS74, EmitterName::ANSPS88, EmitterName::ANSPS501, EmitterName::ANSPS505, EmitterName::ANSPY1, EmitterName::ANSPY1A, EmitterName::ANSPY1B_1, EmitterName::ANSPY1B_2, EmitterName::ANSPY1D_1, EmitterName::ANSPY1D_2, EmitterName::ANSPY1F, EmitterName::ANSPY3, EmitterName::ANTPN12, EmitterName::ANSPY4, EmitterName::ANTLQ32ARMDecoy, EmitterName::ANTPN17, EmitterName::ANTPN8, EmitterName::ANTPN22, EmitterName::ANTLQ17A, EmitterName::ANTMS1, EmitterName::ANTPN24, EmitterName::ANTPN25, EmitterName::ANTMS2, EmitterName::ANTPN19, EmitterName::ANTPN31, EmitterName::ANTPQ18, EmitterName::ANSPY6, EmitterName::ANTPQ36, EmitterName::ANTPQ37, EmitterName::ANTPQ38, EmitterName::ANTPQ39, EmitterName::ANTPQ47, EmitterName::ANTPS43, EmitterName::ANTPS43E, EmitterName::ANTPQ48, EmitterName::ANTPQ49, EmitterName::ANTPQ46A, EmitterName::ANTPS34, EmitterName::ANTPS59, EmitterName::ANTPS44, EmitterName::ANTPQ50, EmitterName::ANTPS63, EmitterName::ANTPS65, EmitterName::ANTPS701, EmitterName::ANTPS63SS, EmitterName::ANTPS73, EmitterName::ANTPS75, EmitterName::ANTPS77, EmitterName::ANTPS78, EmitterName::ANTPS79, EmitterName::ANTPS703, EmitterName::ANTPX467, EmitterName::ANTPS80, EmitterName::ANTPY2, EmitterName::ANTSQ288, EmitterName::ANULQ6A, EmitterName::ANULQ19, EmitterName::ANULQ21, EmitterName::ANUPN25, EmitterName::ANUPS1, EmitterName::ANUPS2, EmitterName::ANUPS3, EmitterName::ANUPX1, EmitterName::ANUPX5, EmitterName::ANUPX11, EmitterName::ANUPX12, EmitterName::ANUPX17, EmitterName::ANUPX23, EmitterName::ANUSQ1133, EmitterName::ANVPS2, EmitterName::ANPLM3, EmitterName::ANPLM3A, EmitterName::ANPLM4, EmitterName::ANZPY1, EmitterName::ANZPY2MPRTIP, EmitterName::ANZPY3, EmitterName::ANZPY8, EmitterName::AORL1AS, EmitterName::AORL85KTKMTA, EmitterName::APAR, EmitterName::Aparna, EmitterName::APECSII, EmitterName::ApelcoAD77, EmitterName::APG71, EmitterName::APN148, EmitterName::APN227, EmitterName::APQ113, EmitterName::APQ120, EmitterName::APQ148, EmitterName::APS504V3, EmitterName::AQUITAINEII, EmitterName::AR1, EmitterName::AR3D, EmitterName::PlesseyAR5, EmitterName::AR15, EmitterName::AR152, EmitterName::AR320, EmitterName::AR325, EmitterName::AR327, EmitterName::Arbalet52, EmitterName::ARBB31, EmitterName::ARBB33, EmitterName::ARIES, EmitterName::AriesNav, EmitterName::AriesCS, EmitterName::ARGS14E, EmitterName::ARGS31, EmitterName::ARGUS, EmitterName::ARM31, EmitterName::ARECIBO, EmitterName::ARED, EmitterName::ARI5954, EmitterName::ARI5955, EmitterName::ARI5979, EmitterName::ARGSN31, EmitterName::ARGOS10, EmitterName::ARGOS800, EmitterName::ARI5983, EmitterName::ARI5991, EmitterName::ARI5995, EmitterName::ARINC564BNDXKINGRDR1E, EmitterName::ARINC700BNDXKINGRDR1E, EmitterName::ARK1, EmitterName::ARLMMTI, EmitterName::ARMOR, EmitterName::ARSR3, EmitterName::ARS400, EmitterName::ARSR1, EmitterName::ARSR4, EmitterName::ARSR18, EmitterName::ARTHUR, EmitterName::ARTHURMODB, EmitterName::ARTHURMODC, EmitterName::ARTISAN3D, EmitterName::AS2Kipper, EmitterName::AS2KipperMH, EmitterName::AS3YJ83KmmWMH, EmitterName::AS_34KormoranSeeker, EmitterName::AS4Kitchen, EmitterName::AS4KitchenMH, EmitterName::AS5KeltMH, EmitterName::AS6KingfishMH, EmitterName::AS7Kerry, EmitterName::AS7KerryMG, EmitterName::AS15KENTaltimeter, EmitterName::AS17AKryptonSeeker, EmitterName::AS17BKryptonSeeker, EmitterName::AS901, EmitterName::AS901A, EmitterName::ASARS2, EmitterName::ASDEKDD, EmitterName::ASLESHA, EmitterName::ASMGCS, EmitterName::ASMI18X, EmitterName::AspideAAMSAMILL, EmitterName::ASMI3, EmitterName::AselsanMAR, EmitterName::ASR2000, EmitterName::ASR4, EmitterName::ASR4D, EmitterName::ASRO, EmitterName::ASR12_1, EmitterName::ASR22AL, EmitterName::ASR3, EmitterName::ASR5, EmitterName::ASR7, EmitterName::ASR8, EmitterName::ASR9, EmitterName::ASR9000, EmitterName::ASTI, EmitterName::ASR11DASR, EmitterName::ASR12_2, EmitterName::RaytheonASR10SS, EmitterName::ASR23SS, EmitterName::Arabel, EmitterName::ASTRE, EmitterName::AT2SwatterMG, EmitterName::_9K114ShturmMG, EmitterName::ASTOR, EmitterName::ASTRARCI, EmitterName::ATCR22, EmitterName::ATCR22M, EmitterName::ATCR2T, EmitterName::ATCR33, EmitterName::ATCR33KM, EmitterName::ATCR33S, EmitterName::ATCR3T, EmitterName::ATCR44, EmitterName::ATCR44K, EmitterName::Argos73, EmitterName::ATCR44MS, EmitterName::ATCR4T, EmitterName::AtlasElektronkTRSN, EmitterName::ATLAS8600X, EmitterName::Atlas9600M, EmitterName::ATLAS9600X, EmitterName::ATLAS9600S, EmitterName::ATLAS9740VTS, EmitterName::ATLASS, EmitterName::ATR500C, EmitterName::AVG65, EmitterName::AVH7, EmitterName::AVIACM, EmitterName::AVIAD, EmitterName::Aviaconversia, EmitterName::AviaconversiaII, EmitterName::AviaconversiaIII, EmitterName::AVQ20, EmitterName::AVQ21, EmitterName::AVQ30X, EmitterName::AVQ50, EmitterName::AVQ70, EmitterName::AWS5, EmitterName::AWS6, EmitterName::AWS6B300, EmitterName::B597Z, EmitterName::B636Z, EmitterName::BackBoard, EmitterName::BackNetAB, EmitterName::BackTrap, EmitterName::BAESystemsRT1805APN, EmitterName::BAESDASS2000Jammer, EmitterName::BalanceBeam, EmitterName::BALTIKAB, EmitterName::BALTYK, EmitterName::BallEnd, EmitterName::BallGun, EmitterName::BALLPOINT, EmitterName::BandStand, EmitterName::BandStand3, EmitterName::P3537, EmitterName::BARAX, EmitterName::BASIR110D, EmitterName::BassTilt, EmitterName::Badger, EmitterName::BarracudaJammer, EmitterName::BaykalCountermeasuresSuite, EmitterName::Beacon, EmitterName::BeanSticks, EmitterName::BeeHind, EmitterName::BellNipJammer, EmitterName::BellPushJammer, EmitterName::BellCrownA, EmitterName::BellCrownB, EmitterName::BellSquat, EmitterName::BIGBACK, EmitterName::BigBirdABC, EmitterName::BigBirdD, EmitterName::BigBirdDMod, EmitterName::BigBirdE91N6E, EmitterName::BigBulge, EmitterName::BigBulgeA, EmitterName::BigBulgeB, EmitterName::BIGEYE, EmitterName::SNAR10, EmitterName::BIGHEADB, EmitterName::BigMesh, EmitterName::BigNet, EmitterName::_9S15MT, EmitterName::BillFold, EmitterName::BLIGHTER400, EmitterName::BlowpipeMG, EmitterName::BLR, EmitterName::BlueFox, EmitterName::BlueKestrel, EmitterName::BlueVixen, EmitterName::BlueSilk, EmitterName::BlueParrot, EmitterName::BlueOrchid, EmitterName::BMDJG8715, EmitterName::BoatSail, EmitterName::BORA550, EmitterName::BoforsElectronic9LV331, EmitterName::BoforsEricssonSeaGiraffe50HC, EmitterName::BowlMesh, EmitterName::BoxBrick, EmitterName::BoxTrail, EmitterName::BMKG300GJammingPod, EmitterName::BMKG600JammingPod, EmitterName::BMKG800JammingPod, EmitterName::BMKG860186058606, EmitterName::BPS11A, EmitterName::BPS14, EmitterName::BPS15A, EmitterName::BR3440CAX57, EmitterName::BR15TokyoKEIKI, EmitterName::BrahMos, EmitterName::BridgeMaster, EmitterName::BridgeMasterEEPA, EmitterName::BridgeMasterEATAandARPA, EmitterName::BridgeMasterEnaval, EmitterName::BrimstonemmWMH, EmitterName::BreadBin, EmitterName::Asr, EmitterName::BT271, EmitterName::BU304, EmitterName::BX732, EmitterName::BUKMB, EmitterName::BuranD, EmitterName::BUREVISNYK1, EmitterName::BuzzStand, EmitterName::C5AMultiModeRadar, EmitterName::C802AL, EmitterName::CAESAR, EmitterName::Caiman, EmitterName::CakeStand, EmitterName::CalypsoC61, EmitterName::CalypsoC63, EmitterName::CalypsoIi, EmitterName::CalypsoIII, EmitterName::CalypsoIV, EmitterName::CardionCoastal, EmitterName::CastorIi, EmitterName::Castor2JTT, EmitterName::CatHouse, EmitterName::CDR431, EmitterName::CEAFAR, EmitterName::CEAMOUNT, EmitterName::CEAFAR2L, EmitterName::CEROS200, EmitterName::CEROS200CWI, EmitterName::CEATAC, EmitterName::CEAOPS, EmitterName::CerberusIII, EmitterName::CHSSN6, EmitterName::CerberusIV, EmitterName::ChairBlackTT, EmitterName::ChairBlackILL, EmitterName::LEMZ96L6, EmitterName::CheeseBrick, EmitterName::CheeseCake, EmitterName::LeninetzObzorMS, EmitterName::Clamshell, EmitterName::CLC1, EmitterName::CLC2, EmitterName::CLC3, EmitterName::CLR155, EmitterName::COASTWATCHER100, EmitterName::CoastalGiraffe, EmitterName::COBRA, EmitterName::CobraShoe, EmitterName::Colibri, EmitterName::CollinsWXR300, EmitterName::CollinsWXR700X, EmitterName::CollinsTWR850, EmitterName::CollinsDN101, EmitterName::COMET1, EmitterName::CONDORMK2, EmitterName::ConsiliumSelesmarRTM25XIM, EmitterName::ContravesSeaHunterMK4, EmitterName::CornCan, EmitterName::COSMOSKYMED1, EmitterName::CR105RMCA, EmitterName::CREWDuke2, EmitterName::CREWDuke3, EmitterName::CrossBird, EmitterName::CrossDome, EmitterName::CrossLegs, EmitterName::CrossOut, EmitterName::CrossSlot, EmitterName::CrossSword, EmitterName::CrossUp, EmitterName::CrossSwordFC, EmitterName::CrotaleAcquisitionTA, EmitterName::CrotaleNGTA, EmitterName::CrotaleTT, EmitterName::CrotaleMGMissileSystem, EmitterName::CS10TA, EmitterName::CSFVaran, EmitterName::CSSN4MH, EmitterName::CSSC3CCAS1M1M2MH, EmitterName::HY2BMH, EmitterName::CSSC2BHY1AMH, EmitterName::CSSN4Sardine, EmitterName::CSSN8Saccade, EmitterName::CurlStoneB, EmitterName::CWS1, EmitterName::CWS2, EmitterName::CWS3, EmitterName::Cygnus, EmitterName::CylinderHead, EmitterName::Cymbeline, EmitterName::CyranoII, EmitterName::CyranoIV, EmitterName::CyranoIVM, EmitterName::DA0100, EmitterName::DA0500, EmitterName::DA052, EmitterName::DA_08, EmitterName::Dawn, EmitterName::DCR, EmitterName::DeadDuck, EmitterName::DECCA20V909, EmitterName::DECCA20V90S, EmitterName::DECCA45, EmitterName::DECCA50, EmitterName::DECCA71, EmitterName::Decca72, EmitterName::DECCA110, EmitterName::DECCA170, EmitterName::DECCAHF2, EmitterName::DECCA202, EmitterName::DECCAD202, EmitterName::DECCA303, EmitterName::DECCA535, EmitterName::DECCA626, EmitterName::DECCA629, EmitterName::DECCA914, EmitterName::DECCA916, EmitterName::DECCA926, EmitterName::DECCA1070A, EmitterName::Decca1008, EmitterName::DECCA1226Commercial, EmitterName::DECCA1290, EmitterName::DECCA1626, EmitterName::DECCA2070, EmitterName::Decca1630, EmitterName::DECCA2459, EmitterName::DECCAAWS1, EmitterName::DECCAAWS2, EmitterName::DECCAAWS4, EmitterName::DECCAAWS42, EmitterName::DECCAMAR, EmitterName::DECCARM326, EmitterName::DECCARM416, EmitterName::DECCARM970BT, EmitterName::DECCARM914, EmitterName::DF21DSeeker, EmitterName::DECCARM1690, EmitterName::DECCA1690, EmitterName::DECCASuper101MK3, EmitterName::DISS1, EmitterName::DISS7, EmitterName::DISS013, EmitterName::DISS15D, EmitterName::DLD100A, EmitterName::RapierTTDN181, EmitterName::Rapier2000TT, EmitterName::DogEar, EmitterName::DogHouse, EmitterName::DM3, EmitterName::DM3B, EmitterName::DM5, EmitterName::Don2, EmitterName::DonAB2Kay, EmitterName::Donets, EmitterName::Doppler90Series, EmitterName::DownBeat, EmitterName::DR582, EmitterName::DRAA2A, EmitterName::DRAA2B, EmitterName::DRAA9A, EmitterName::DRAA11A, EmitterName::DRAC37B, EmitterName::DRAC38, EmitterName::DRAC39, EmitterName::DRAC39A, EmitterName::DRAC43A, EmitterName::DRAC44A, EmitterName::DragonEye, EmitterName::DragonEye2, EmitterName::DragonEye3, EmitterName::DragonEye4, EmitterName::DRBC30B, EmitterName::DRBC31A, EmitterName::DRBC31D, EmitterName::DRBC32, EmitterName::DRBC32A, EmitterName::DRBC32D, EmitterName::DRBC33A, EmitterName::DRBI10, EmitterName::DRBI23, EmitterName::DRBJ11B, EmitterName::DRBN30, EmitterName::DRBN32, EmitterName::DRBN34, EmitterName::DRBR51, EmitterName::DRBV20A, EmitterName::DRBV20B, EmitterName::DRBV21Mars05, EmitterName::DRBV22, EmitterName::DRBV23, EmitterName::DRBV26C, EmitterName::DRBV26D, EmitterName::DRBV30, EmitterName::DRBV31, EmitterName::DRBV50, EmitterName::DRBV51, EmitterName::DRBV51A, EmitterName::DRBV51B, EmitterName::DRBV51C, EmitterName::DropKick, EmitterName::DRUA31, EmitterName::DrumTilt, EmitterName::DrumTiltA, EmitterName::DrumTiltB, EmitterName::DRUN30A, EmitterName::Dumbo, EmitterName::DWSR92, EmitterName::DWSR93S, EmitterName::EAGLE, EmitterName::EAGLEMk1, EmitterName::EAJPJammingPod, EmitterName::EKCOE390, EmitterName::ECR90, EmitterName::ECR90Jammer, EmitterName::EggCupAB, EmitterName::EISCAT, EmitterName::EKCOE120, EmitterName::EKCO190, EmitterName::Ekran1, EmitterName::ELL8222, EmitterName::ELL8240, EmitterName::ELM2001B, EmitterName::ELM2022, EmitterName::ELM2032, EmitterName::ELM2052, EmitterName::ELM2055, EmitterName::ELM2060, EmitterName::ELM2075, EmitterName::ELM2022U3, EmitterName::ELM2080, EmitterName::ELM2080S, EmitterName::ELM2085, EmitterName::ELM2106, EmitterName::ELM2106NG, EmitterName::ELM2125, EmitterName::ELM2129, EmitterName::ELM2150, EmitterName::ELM2083, EmitterName::ELM2084, EmitterName::ELM2160V1, EmitterName::ELM2084MMR, EmitterName::ELM2112, EmitterName::ELM2200, EmitterName::ELM2133, EmitterName::ELM2205, EmitterName::ELM2207, EmitterName::ELM2215, EmitterName::ELM2216V, EmitterName::ELM2216XH, EmitterName::ELM2218S, EmitterName::ELT361, EmitterName::ELM2258, EmitterName::ELT553, EmitterName::ELT558, EmitterName::ELT572, EmitterName::ELT715, EmitterName::EltaELM2022A, EmitterName::ELTAELM2221GMSTGR, EmitterName::ELM2228S3D, EmitterName::ELM2705, EmitterName::ELM2226, EmitterName::ELM2228X, EmitterName::ELTASIS, EmitterName::ELM2238, EmitterName::ELM2248, EmitterName::ELM2288, EmitterName::ELM2311, EmitterName::ELM2026, EmitterName::ELNA4007, EmitterName::ELT318, EmitterName::ELW2085, EmitterName::ELT521, EmitterName::ELW2090, EmitterName::EnhancedMeteorDetectionRadarEMDR, EmitterName::EMD2900, EmitterName::EMPAR, EmitterName::EndTray, EmitterName::EQ36, EmitterName::EricssonSLAR, EmitterName::Erieye, EmitterName::ESR1, EmitterName::ESR220, EmitterName::ESR380, EmitterName::ESTEREL, EmitterName::ET316, EmitterName::ExocetType, EmitterName::ExocetAL, EmitterName::Exocet1, EmitterName::Exocet1MH, EmitterName::Exocet2, EmitterName::EyeBowl, EmitterName::EyeShield, EmitterName::F332Z, EmitterName::FalconClawTI, EmitterName::FalconClawTT, EmitterName::FALCON, EmitterName::FALCONG, EmitterName::FalconEye, EmitterName::FanSongA, EmitterName::FanSongBFTA, EmitterName::FanSongBFTT, EmitterName::FanSongCETA, EmitterName::FanSongCETT, EmitterName::FanSongCEMG, EmitterName::FanSongBFFMG, EmitterName::FanTail, EmitterName::FAR2117, EmitterName::FAR2827, EmitterName::FAR2837S, EmitterName::FAR3000, EmitterName::FB7Radar, EmitterName::FCR1401, EmitterName::FCS212E, EmitterName::FCS212G, EmitterName::FCS221A, EmitterName::FCS221C, EmitterName::FCS222, EmitterName::FCS231, EmitterName::FCS3, EmitterName::FinCurve, EmitterName::FireCan, EmitterName::FireDish, EmitterName::FireDomeTA, EmitterName::FireDomeTT, EmitterName::FireDomeTI, EmitterName::FireIron, EmitterName::FireWheel, EmitterName::FishBowl, EmitterName::FK3, EmitterName::FLAIR, EmitterName::FlapLid, EmitterName::_30N6E, EmitterName::FlapTruck, EmitterName::FlapWheel, EmitterName::FlashDance, EmitterName::FlashDanceM, EmitterName::P15, EmitterName::_35N6, EmitterName::FlatScreen, EmitterName::FlatSpin, EmitterName::FlatTrackJammer, EmitterName::FlatTwin, EmitterName::FL400, EmitterName::FL1800, EmitterName::FL1800U, EmitterName::FL1800S, EmitterName::Fledermaus, EmitterName::FLYCATCHER, EmitterName::FLYCATCHERMK2, EmitterName::FlyScreen, EmitterName::FlyScreenAB, EmitterName::FlyTrapB, EmitterName::FM90, EmitterName::FogLampMG, EmitterName::FogLampTT, EmitterName::FoilTwo, EmitterName::FootBall, EmitterName::FoxHunter, EmitterName::FoxFireAL, EmitterName::FoxFireILL, EmitterName::FR151A, EmitterName::FurunoFR1500FR1600, EmitterName::FR1505DA, EmitterName::FR1510DS, EmitterName::FR2000, EmitterName::Furuno2855W, EmitterName::FregatMAE, EmitterName::FregatN1, EmitterName::FregatN2, EmitterName::FrontDome, EmitterName::FregatMAE5, EmitterName::FrontDoor, EmitterName::FrontPiece, EmitterName::FurbymmWMH, EmitterName::Furke, EmitterName::Furke2, EmitterName::Furke4, EmitterName::Furuno, EmitterName::Furuno1721, EmitterName::Furuno1934C, EmitterName::Furuno1715, EmitterName::Furuno1730, EmitterName::Furuno1731Mark3, EmitterName::Furuno1832, EmitterName::Furuno1835, EmitterName::Furuno1932, EmitterName::Furuno1935, EmitterName::Furuno701, EmitterName::Furuno1940, EmitterName::Furuno7112, EmitterName::FurunoFR2130S, EmitterName::FurunoFAR2137S, EmitterName::FurunoFAR28X7, EmitterName::FurunoFAR3230S, EmitterName::FR2110, EmitterName::FR2115, EmitterName::FR8062, EmitterName::Furuno2125, EmitterName::Furuno240, EmitterName::Furuno2400, EmitterName::FR801D, EmitterName::Furuno8051, EmitterName::FurunoDRS2D, EmitterName::FurunoDRS4D, EmitterName::FurunoDRS4A, EmitterName::G030A, EmitterName::FurunoDRS6AXClass, EmitterName::DRS4W, EmitterName::GA0100, EmitterName::Gabbiano, EmitterName::Gage, EmitterName::Gaofen3, EmitterName::GAOFEN12, EmitterName::GAPGATE, EmitterName::Gardenia, EmitterName::GarminGMR1224, EmitterName::GarminFantom24, EmitterName::GarminGWX68WeatherRadar, EmitterName::Garpin, EmitterName::GateGuard, EmitterName::GarpunBalE, EmitterName::GBS1, EmitterName::GCA2000, EmitterName::Furuno18321921Series, EmitterName::GEMINIDB, EmitterName::GEMOlympus, EmitterName::GEMSentinel, EmitterName::GEMBX132, EmitterName::GEMSC2050X, EmitterName::GEMSeaEagle200N, EmitterName::GenericInternalJammer, EmitterName::MPDR12, EmitterName::GENX, EmitterName::GepardTT, EmitterName::GERANF, EmitterName::GERFAUT, EmitterName::GFE1, EmitterName::GIRAFFE, EmitterName::GIRAFFE1X, EmitterName::Giraffe40, EmitterName::Giraffe50AT, EmitterName::Giraffe75, EmitterName::GinSlingTA, EmitterName::GinSling, EmitterName::GinSlingMG, EmitterName::GoalKeeper, EmitterName::GoldenDome, EmitterName::GoldenHeart, EmitterName::GoldenRock, EmitterName::GPN22, EmitterName::GPSJ10, EmitterName::GPSJ25, EmitterName::GPSJ40, EmitterName::GPSJ50, EmitterName::GRN9, EmitterName::GRANK, EmitterName::GraveStone, EmitterName::GRAVES, EmitterName::GreenStain, EmitterName::GridBow, EmitterName::GrifoF, EmitterName::_9S32, EmitterName::GRILLSCREEN, EmitterName::Grom2, EmitterName::GROUNDMASTER400, EmitterName::GT4, EmitterName::GRS440, EmitterName::GUARDIAN, EmitterName::Guardsman, EmitterName::RPK2, EmitterName::HRJZ7264AJammer, EmitterName::H025, EmitterName::HADR, EmitterName::HairNet, EmitterName::HalfPlateA, EmitterName::HalfPlateB, EmitterName::HARD, EmitterName::Harpoon, EmitterName::HatBox, EmitterName::HawkScreech, EmitterName::HayPole, EmitterName::HayRick, EmitterName::HeadLightA, EmitterName::HeadLights, EmitterName::HeadLightsC, EmitterName::HeadLightsMGA, EmitterName::HeadLightsMGB, EmitterName::HeadLightsTT, EmitterName::HeadNet, EmitterName::HeartAcheB, EmitterName::HellfiremmWMH, EmitterName::HenEgg, EmitterName::HenHouse, EmitterName::HenNest, EmitterName::HenRoost, EmitterName::Herakles, EmitterName::HF2MG, EmitterName::HGR105, EmitterName::HighBrick, EmitterName::HighFix, EmitterName::HighGuard, EmitterName::HighLarkTI, EmitterName::HighLark1, EmitterName::HighLark2, EmitterName::HighLark4, EmitterName::HighLune, EmitterName::HighPoleAB, EmitterName::HighScoop, EmitterName::_9S19MT, EmitterName::HighSieve, EmitterName::HillBlock, EmitterName::HimalayasCountermeasuresSuite, EmitterName::HG9550, EmitterName::HJ6374, EmitterName::HLDRADAR900, EmitterName::HLJQ520, EmitterName::HN503, EmitterName::HNC03M, EmitterName::HomeTalk, EmitterName::HornSpoon, EmitterName::HotBrick, EmitterName::HotFlash, EmitterName::HotFlash2, EmitterName::IHS6, EmitterName::IRL144MHotShotTA, EmitterName::IRL144MHotShotTT, EmitterName::IRL144MHotShotMG, EmitterName::HPS106, EmitterName::HPS104, EmitterName::HQ9MH, EmitterName::HSR1128, EmitterName::HT233, EmitterName::HQ61, EmitterName::HRJS, EmitterName::IDerbyER, EmitterName::IBIS80, EmitterName::IBIS150, EmitterName::IBIS200, EmitterName::IFFMKXIIAIMSUPX29, EmitterName::Janet, EmitterName::IFFMKXV, EmitterName::IFFINT, EmitterName::JackKnife, EmitterName::IFFTRSP, EmitterName::JMUSICElbitSystemsJammer, EmitterName::JavelinMG, EmitterName::JALQ8, EmitterName::JFPS7, EmitterName::JayBird, EmitterName::JFPS3, EmitterName::JH10, EmitterName::JMPQP7, EmitterName::JL7, EmitterName::JL10B, EmitterName::JMA1576, EmitterName::JRCJMA92526CA, EmitterName::JLP40, EmitterName::JRCJMR9200SeriesX, EmitterName::JRCNMD401, EmitterName::JRCJRM310MK2, EmitterName::JMA1596, EmitterName::JMA7000, EmitterName::JRCJMA7700, EmitterName::JMA5320, EmitterName::JRCJMR92106XC, EmitterName::JERS1, EmitterName::JINDALEE, EmitterName::JRCJMA9900series, EmitterName::JLP40D, EmitterName::JRCJMA5300series, EmitterName::Jupiter, EmitterName::JupiterII, EmitterName::JY8, EmitterName::JY8A, EmitterName::JY9, EmitterName::JY9Modified, EmitterName::JY11EW, EmitterName::JY14, EmitterName::JY14A, EmitterName::JY16, EmitterName::JY24, EmitterName::JAPG1, EmitterName::JAPG2, EmitterName::JY29, EmitterName::JYL1, EmitterName::JYL6, EmitterName::JYL6A, EmitterName::JZQF612, EmitterName::K376Z, EmitterName::K77M, EmitterName::Kaige, EmitterName::KALKAN, EmitterName::KBPAfganit, EmitterName::KALKANII, EmitterName::KelvinHughes2A, EmitterName::KelvinHughes149, EmitterName::Karpaty, EmitterName::Kashtan3JammingSystem, EmitterName::KelvinHughestype1006, EmitterName::KelvinHughestype1007, EmitterName::KelvinHughesType1007FBand, EmitterName::KelvinHughes2007FBand, EmitterName::KelvinHughes2007IBand, EmitterName::KHNucleus5000, EmitterName::KHMANTA, EmitterName::KHNUCLEUS26000, EmitterName::KHNUCLEUS35000, EmitterName::KHNUCLEUS36000A, EmitterName::KHFamily, EmitterName::KelvinHughes6000A, EmitterName::Kh38MAEMH, EmitterName::KG8605A, EmitterName::KH902M, EmitterName::KHOROMK, EmitterName::KHIBINY, EmitterName::KG300E, EmitterName::KHSharpEye, EmitterName::KHSharpEyeB, EmitterName::KHSharpEyeC, EmitterName::KH1700, EmitterName::KingPin, EmitterName::KG300, EmitterName::KiteScreech, EmitterName::KiteScreechA, EmitterName::KiteScreechB, EmitterName::KLC3B, EmitterName::KJ500NanjingRadar, EmitterName::Kivach, EmitterName::KJ500Jammer, EmitterName::KLC1, EmitterName::KLJ1, EmitterName::KLJ3, EmitterName::KLJ4, EmitterName::KLJ4B, EmitterName::KLJ5, EmitterName::KLJ7, EmitterName::KLJ7B, EmitterName::KLJ7A, EmitterName::KnifeRest, EmitterName::P10, EmitterName::KNIFERESTC, EmitterName::KodenMD3730, EmitterName::KJ2000, EmitterName::KODENMDC900, EmitterName::Koopol, EmitterName::KOPYOI, EmitterName::KR75, EmitterName::KRONOS, EmitterName::KREDO1E, EmitterName::Krasukha2, EmitterName::KRONOSGRANDNAVAL, EmitterName::KRM66E, EmitterName::KSASRN, EmitterName::KSATSR, EmitterName::KS1APHASEDARRAY, EmitterName::KS418, EmitterName::KS418E, EmitterName::KZ100, EmitterName::KZ900, EmitterName::L175V, EmitterName::L3705PresidentSJammer, EmitterName::L415, EmitterName::L88, EmitterName::LAADS, EmitterName::LandFall, EmitterName::LandRollMG, EmitterName::LandRollTA, EmitterName::LandRollTT, EmitterName::LAZUR, EmitterName::Model791A, EmitterName::LAP3000, EmitterName::LC150, EmitterName::LEER3, EmitterName::LegDrive, EmitterName::LeninetzV004, EmitterName::Leningraf, EmitterName::LIANA, EmitterName::LightBulb, EmitterName::LIRAA10, EmitterName::LIROD8, EmitterName::LIRODMKII, EmitterName::LLX05K, EmitterName::LMTNRAI6A, EmitterName::LN55, EmitterName::Ln66, EmitterName::Liman, EmitterName::Liman2, EmitterName::LockheedVigilance, EmitterName::LongBow, EmitterName::LongBrick, EmitterName::LongBull, EmitterName::LongEye, EmitterName::LongHead, EmitterName::LongTalk, EmitterName::LongTrack, EmitterName::LongTrough, EmitterName::LookTwo, EmitterName::LOPAR, EmitterName::LORAN, EmitterName::LowBlowTA, EmitterName::LowBlowTT, EmitterName::LowBlowMG, EmitterName::LowJackTT, EmitterName::LowJackMG, EmitterName::LowSieve, EmitterName::LowTrough, EmitterName::LR66, EmitterName::LRA900, EmitterName::TRS2050, EmitterName::LW01, EmitterName::LW08, EmitterName::M1983FCR, EmitterName::M2240, EmitterName::M44, EmitterName::M401Z, EmitterName::M585Z, EmitterName::M588Z, EmitterName::MA1IFFPortion, EmitterName::MADHACK, EmitterName::MARELD, EmitterName::MAType909, EmitterName::MARCS152, EmitterName::Marconi1810, EmitterName::MarconiCanadaHC75, EmitterName::MarconiS713, EmitterName::MarconiS1802, EmitterName::MarconiS247, EmitterName::MarconiS810, EmitterName::MarconiSA10, EmitterName::MARCONIST801, EmitterName::MarconiST805, EmitterName::Marconitype967, EmitterName::Marconitype968, EmitterName::Marconitype992, EmitterName::Marconisignaaltype1022, EmitterName::Marconisignaaltype910, EmitterName::Marconisignaaltype911, EmitterName::Marconisignaaltype992R, EmitterName::MARTELLO743D, EmitterName::MARTELLOS723A, EmitterName::MASTERA, EmitterName::MBDAFLAADSMJammer, EmitterName::MELCO3, EmitterName::MELODI, EmitterName::MERLIN, EmitterName::Meraj4, EmitterName::NorthropGrummanMESA, EmitterName::MeshBrick, EmitterName::METEOR1500S, EmitterName::METEOR200, EmitterName::METEOR50DX, EmitterName::METEOR300, EmitterName::MeteorBVRAAM, EmitterName::MFR, EmitterName::MFSR210045, EmitterName::MICAMH, EmitterName::MICARF, EmitterName::MineralME, EmitterName::MirageILL, EmitterName::MiysisJammer, EmitterName::MK15, EmitterName::MK15CIWS, EmitterName::MK23, EmitterName::MK23TAS, EmitterName::MK25, EmitterName::Mk25Mod3, EmitterName::Mk25Mod7, EmitterName::MK35M2, EmitterName::MK92, EmitterName::MK92CAS, EmitterName::MK92STIR, EmitterName::MK95, EmitterName::MKS818, EmitterName::MLA1, EmitterName::MMAPQ706, EmitterName::MM950, EmitterName::MMAPS705, EmitterName::MMAPS784, EmitterName::MMSPG73, EmitterName::MMSPG74, EmitterName::MMSPG75, EmitterName::MMSPN703, EmitterName::MMSPN730, EmitterName::MMSPN753B, EmitterName::MMSPQ3, EmitterName::MMSPS702, EmitterName::MMSPS768, EmitterName::MMSPS774, EmitterName::MMSPS791, EmitterName::MMSPS794, EmitterName::MMSPS798, EmitterName::MMSR, EmitterName::Model17C, EmitterName::Moon4, EmitterName::MoonPie, EmitterName::MOONCONE, EmitterName::MoonRack, EmitterName::MOONFACE, EmitterName::MMRS, EmitterName::Model360, EmitterName::Model378, EmitterName::Model970, EmitterName::Model974, EmitterName::MONOLITB, EmitterName::Monument, EmitterName::Mouse, EmitterName::MP411ESM, EmitterName::MPDR18S, EmitterName::MPDR18X, EmitterName::MPDR45E, EmitterName::MR2311, EmitterName::MPR, EmitterName::MR2314, EmitterName::MPS1, EmitterName::MR36B, EmitterName::MR231MOD, EmitterName::MR1600, EmitterName::MRR, EmitterName::MR35, EmitterName::MR36, EmitterName::MRL1, EmitterName::MRL4, EmitterName::MRL5, EmitterName::MSAM, EmitterName::MR36A, EmitterName::MSTAR, EmitterName::MT305X, EmitterName::MR10M1E, EmitterName::MR90, EmitterName::MRK411, EmitterName::MR320MTopazV, EmitterName::MSP418K, EmitterName::MuffCob, EmitterName::Mushroom, EmitterName::Mushroom1, EmitterName::Mushroom2, EmitterName::Mushroom3, EmitterName::N23, EmitterName::N011MBars, EmitterName::N011MBarsB, EmitterName::N011MBarsC, EmitterName::N011MBarsR, EmitterName::N035IrbisE, EmitterName::N036Byelka, EmitterName::N25, EmitterName::N920Z, EmitterName::N001V, EmitterName::NACOSRADARPILOTPlatinum, EmitterName::NampoB, EmitterName::NAGIRA, EmitterName::NanjingB, EmitterName::NanjingC, EmitterName::Nayada, EmitterName::NAYADA5M, EmitterName::NAYADA5PV, EmitterName::NEBOM, EmitterName::NeboSVU, EmitterName::Neptun, EmitterName::Nettuno4100, EmitterName::NIKEHERCULESMTR, EmitterName::NIKETT, EmitterName::NorthropGrummanMFEWJammer, EmitterName::NORINCO3D, EmitterName::NJ81E, EmitterName::Normandie, EmitterName::NRJ6A, EmitterName::NOSTRADAMUS, EmitterName::NPG1240, EmitterName::NPG1460, EmitterName::NPG434, EmitterName::NPG630, EmitterName::NPM510, EmitterName::NutCan, EmitterName::NPVegaLiana, EmitterName::NovellaNV1_70, EmitterName::NRBA50, EmitterName::NRBA51, EmitterName::NRBF20A, EmitterName::NRJ5, EmitterName::NS9005, EmitterName::NS100Series, EmitterName::NUR31, EmitterName::NWS3, EmitterName::NysaB, EmitterName::O524A, EmitterName::O580B, EmitterName::O625Z, EmitterName::O626Z, EmitterName::OceanMaster, EmitterName::OceanMaster400, EmitterName::OddGroup, EmitterName::OddLot, EmitterName::OddPair, EmitterName::OddRods, EmitterName::Oka, EmitterName::OFOGH, EmitterName::OFOGH3, EmitterName::OKEAN, EmitterName::OKEANA, EmitterName::OKINXE12C, EmitterName::OKO, EmitterName::OMEGA, EmitterName::OmeraORB32, EmitterName::OMUL, EmitterName::OneEye, EmitterName::OP28, EmitterName::OPRL4, EmitterName::OPRM71, EmitterName::OPS9, EmitterName::OPS11BC, EmitterName::OPS12, EmitterName::OPS14B, EmitterName::OPS14C, EmitterName::OPS16B, EmitterName::OPS18, EmitterName::OPS19, EmitterName::OPS20, EmitterName::OPS22, EmitterName::OPS24, EmitterName::OPS28, EmitterName::OPS28C, EmitterName::OPS39, EmitterName::OPTIMA3_2, EmitterName::OR2, EmitterName::ORB31D, EmitterName::ORB31S, EmitterName::ORB32, EmitterName::ORB42, EmitterName::OrionRtn10X, EmitterName::SurfaceWave, EmitterName::OtomatMK1, EmitterName::OtomatMKIITeseo, EmitterName::OtomatSeriesAL, EmitterName::OwlScreech, EmitterName::P360Z, EmitterName::P14, EmitterName::P180U, EmitterName::P182, EmitterName::PA1660, EmitterName::P18M, EmitterName::P190U, EmitterName::P30, EmitterName::P18MOD, EmitterName::P35M, EmitterName::PAGE, EmitterName::PaintBox, EmitterName::PalmFrond, EmitterName::ModifiedPaintBox, EmitterName::PalmFrondAB, EmitterName::Pandora, EmitterName::PALSAR2, EmitterName::PantsirSMTAR, EmitterName::PAR2, EmitterName::PAR2000, EmitterName::PAR2090C, EmitterName::PAR80, EmitterName::PatHandTT, EmitterName::PatHandMG, EmitterName::PATRIOT, EmitterName::PattyCake, EmitterName::PawnCake, EmitterName::PBR4Rubin, EmitterName::PCS514, EmitterName::PeaSticks, EmitterName::PechoraSC, EmitterName::PeelCone, EmitterName::PeelGroup, EmitterName::PeelGroupA, EmitterName::PeelGroupB, EmitterName::PeelGroupMG, EmitterName::PeelPair, EmitterName::Pelena, EmitterName::PGZ07, EmitterName::Phalanx, EmitterName::PhazotronGukol4, EmitterName::PhazotronZhukAAE, EmitterName::Philips9LV200, EmitterName::Philips9LV331, EmitterName::PhilipsLV223, EmitterName::PhilipsSeaGiraffe50HC, EmitterName::PhimatJammer, EmitterName::PICOSAR, EmitterName::PILOTMK2, EmitterName::PinJib, EmitterName::PinTip, EmitterName::PL11, EmitterName::PL12, EmitterName::PL15, EmitterName::PlankShad, EmitterName::PlankShave, EmitterName::PlankShaveA, EmitterName::PlankShaveB, EmitterName::PlateSteer, EmitterName::PlesseyAWS1, EmitterName::PlesseyAWS2, EmitterName::PlesseyAWS4, EmitterName::PlesseyAWS6, EmitterName::PlesseyRJ, EmitterName::PlesseyType904, EmitterName::Plesseytype996, EmitterName::PlesseyAWS9, EmitterName::PlinthNet, EmitterName::Pluto, EmitterName::PNABRubinDownBeat, EmitterName::POHJANPALO, EmitterName::PolimentK, EmitterName::POLLUX, EmitterName::PotGroup, EmitterName::PotGroupMG, EmitterName::PotGroupTA, EmitterName::PotGroupTT, EmitterName::PorkFist, EmitterName::PorkTrough, EmitterName::PozitivME15P26, EmitterName::PositiveME1_2, EmitterName::PostBow, EmitterName::PostLamp, EmitterName::PotDrum, EmitterName::PotHead, EmitterName::PotShot, EmitterName::PraetorianCountermeasuresSuite, EmitterName::PRIMUS30A, EmitterName::PRIMUS40WXD, EmitterName::Primus400, EmitterName::PRIMUS300SL, EmitterName::Primus500, EmitterName::Primus650, EmitterName::Primus700, EmitterName::PRIMUS800, EmitterName::Primus3000, EmitterName::Primus870, EmitterName::PRORA, EmitterName::PRS2, EmitterName::PRS3Argon2, EmitterName::PRORAPA1660, EmitterName::PS15, EmitterName::PS05A, EmitterName::PS46A, EmitterName::PS70R, EmitterName::PS171R, EmitterName::PS860, EmitterName::PS870, EmitterName::PS890, EmitterName::PSM33, EmitterName::PuffBall, EmitterName::QuadradarVI, EmitterName::QW1A, EmitterName::Phazotron1RS21E, EmitterName::PVS200, EmitterName::PVS2000, EmitterName::R330ZH, EmitterName::R045, EmitterName::R76, EmitterName::R934B, EmitterName::RA20, EmitterName::RA723, EmitterName::R41XXX, EmitterName::RAC3D, EmitterName::RAC30, EmitterName::R423AM, EmitterName::Racal1229, EmitterName::DECCA1230, EmitterName::RacalAC2690BT, EmitterName::RacalDecca1216, EmitterName::RacalDECCA20V909, EmitterName::RacalDecca360, EmitterName::RacalDeccaAC1290, EmitterName::RacalDeccaTM1229, EmitterName::RacalDeccaTM1626, EmitterName::RacalDRBN34A, EmitterName::RADAMHR, EmitterName::Radar24, EmitterName::RADARPILOT1000, EmitterName::RADARPILOT1100, EmitterName::RAJENDRA, EmitterName::RAN7S, EmitterName::RAN10S, EmitterName::RAN11LX, EmitterName::Rani, EmitterName::RAPHAELTH, EmitterName::RapierTA, EmitterName::Rapier2000TA, EmitterName::RapierMG, EmitterName::RASCAR3400C, EmitterName::Rashmi, EmitterName::Rasit, EmitterName::Rasit3190B, EmitterName::RAT31DLM, EmitterName::RAT31DL, EmitterName::RAT31S, EmitterName::RAT8S, EmitterName::RAT31SL, EmitterName::RavenES05, EmitterName::RATAC, EmitterName::RAWL, EmitterName::Rattler, EmitterName::RAWS, EmitterName::RAWL02, EmitterName::Raytheon1220, EmitterName::RAWS03, EmitterName::Raytheon1210xx, EmitterName::Raytheon1302, EmitterName::Raytheon1500, EmitterName::Raytheon1645, EmitterName::Raytheon1650, EmitterName::Raytheon1900, EmitterName::Raytheon2502, EmitterName::RaytheonAnschutzNautoScanNX, EmitterName::RaytheonR41, EmitterName::RaytheonRM10256X, EmitterName::RaytheonSL72, EmitterName::RaytheonTM16506X, EmitterName::RaytheonTM166012S, EmitterName::RAY1220XR, EmitterName::RAY1401, EmitterName::Ray2900, EmitterName::RaymarineRD218, EmitterName::Raypath, EmitterName::RaytheonPathfinderSTmk2, EmitterName::RBE2, EmitterName::RBE2AA, EmitterName::RCT180, EmitterName::RDM, EmitterName::RDM3, EmitterName::RDI, EmitterName::RDY, EmitterName::RDY3, EmitterName::RDS86, EmitterName::RDN72, EmitterName::RDR1A, EmitterName::RDR1E, EmitterName::RDR4A, EmitterName::RDR150, EmitterName::RDR160XD, EmitterName::RDR230HP, EmitterName::RDR1100, EmitterName::RDR1150, EmitterName::RDR1200, EmitterName::RDR1400, EmitterName::RDR1400C, EmitterName::RDR4000_1, EmitterName::RDR4000_2, EmitterName::RDR1500, EmitterName::RiceCake, EmitterName::RDR1600, EmitterName::RDR2000, EmitterName::RDR1700B, EmitterName::Remora, EmitterName::RiceField, EmitterName::REC1A, EmitterName::REC1B, EmitterName::REC1C, EmitterName::ResolveEAS, EmitterName::RiceCupC, EmitterName::REL6E, EmitterName::REC1, EmitterName::RiceBowl, EmitterName::ImprovedReporter, EmitterName::RiceBug, EmitterName::RiceCup, EmitterName::RiceLamp, EmitterName::REVATHI, EmitterName::REZONANS, EmitterName::RGMUGM109B, EmitterName::RGMUGM109EHomingRadar, EmitterName::RicePad, EmitterName::RKL526, EmitterName::RKZ764, EmitterName::RKZ766, EmitterName::RKL165, EmitterName::RKL609, EmitterName::RKL800, EmitterName::RKZ761, EmitterName::RKZ2000, EmitterName::RIS4CA, EmitterName::RL2000, EmitterName::RL41, EmitterName::RIR778, EmitterName::RISAT, EmitterName::RLMS, EmitterName::RimHatESMECMSuite, EmitterName::RiceScoop, EmitterName::RiceScreen, EmitterName::DECCATM1070A, EmitterName::RM370BT, EmitterName::RockwellCollinsFMR200X, EmitterName::RM2312, EmitterName::RM23123, EmitterName::RMT0100A, EmitterName::RN222, EmitterName::ROLAND2, EmitterName::ROLANDBN, EmitterName::ROLANDMG, EmitterName::ROLANDTA, EmitterName::ROLANDTT, EmitterName::ROTODOME, EmitterName::RoundBall, EmitterName::RP379DTiradaD, EmitterName::RP3, EmitterName::RP4G, EmitterName::RoundHouse, EmitterName::RoundHouseB, EmitterName::RPR117, EmitterName::RS0250, EmitterName::RSR210N, EmitterName::RT0250, EmitterName::RTA4100, EmitterName::RTN1A, EmitterName::RTN25X, EmitterName::RTS6400, EmitterName::RubyRake, EmitterName::RumSling, EmitterName::RumSlingRO, EmitterName::RumSlingTT, EmitterName::RV2, EmitterName::RV3, EmitterName::RV5, EmitterName::RV10, EmitterName::RV15M, EmitterName::RV17, EmitterName::RV18, EmitterName::RV21, EmitterName::RV21B, EmitterName::RV25, EmitterName::RV377, EmitterName::RVUM, EmitterName::RWD8, EmitterName::RXN260, EmitterName::RyeHouse, EmitterName::S1810CD, EmitterName::Sahab, EmitterName::Salamandre, EmitterName::SamyungSMR7200, EmitterName::S1850M, EmitterName::S511, EmitterName::S512, EmitterName::S600, EmitterName::S604, EmitterName::S763LANZA3D, EmitterName::S613, EmitterName::S631, EmitterName::S654, EmitterName::S669, EmitterName::SA2Guideline, EmitterName::S244, EmitterName::S711, EmitterName::SA3Goa, EmitterName::SA8GeckoDT, EmitterName::SA12TELARILL, EmitterName::SA23TELIlluminator, EmitterName::SABERM60, EmitterName::Samovar, EmitterName::Sampson, EmitterName::SAN7GadflyTI, EmitterName::SAN11Cads1UN, EmitterName::SaccadeMH, EmitterName::SaltPotAB, EmitterName::SAP14, EmitterName::SAP518, EmitterName::SAP518M, EmitterName::SandBar, EmitterName::SAPechora2MTT, EmitterName::SAR, EmitterName::SATRAPE, EmitterName::SATURNEII, EmitterName::ScanCan, EmitterName::ScanFix, EmitterName::ScanOdd, EmitterName::SCANTER1002, EmitterName::SCANTER2001, EmitterName::SCANTER2002, EmitterName::SCANTER2100, EmitterName::SCANTER4002, EmitterName::SCANTER4100, EmitterName::SCANTER5102, EmitterName::SCANTER5502, EmitterName::SCANTER6000, EmitterName::SCANTER6002, EmitterName::ScanterMil009, EmitterName::ScanThree, EmitterName::SCANTERMILS, EmitterName::ScanterSMR, EmitterName::SCANTER, EmitterName::SCORADS, EmitterName::Scimitar, EmitterName::STAR2000, EmitterName::SCOREBOARD, EmitterName::ScoopPair, EmitterName::ScoupPlate, EmitterName::SCOUT, EmitterName::SCR584, EmitterName::SeaArcher2, EmitterName::SeaBasedXBand, EmitterName::SeaDragon, EmitterName::SeaEagle, EmitterName::SeaEagleSC, EmitterName::SEAFALCON, EmitterName::SeaGiraffeAMB, EmitterName::Seaguard, EmitterName::SeaHawkSHNX12, EmitterName::SeaHunter4MG, EmitterName::SeaHunter4TA, EmitterName::SeaHunter4TT, EmitterName::SeaGull, EmitterName::SeaMaster400, EmitterName::SeaNet, EmitterName::SeaSparrow, EmitterName::SeaSpray, EmitterName::SeaTiger, EmitterName::SeaTigerM, EmitterName::Seastar, EmitterName::Searchwater, EmitterName::Searchwater2000, EmitterName::SEASONDE, EmitterName::SEASPRAY7000E, EmitterName::SeaVue, EmitterName::SeasprayMk3, EmitterName::SeleniaOrion7, EmitterName::Seleniatype912, EmitterName::SelenniaRAN12LX, EmitterName::SeleniaRAN20S, EmitterName::SelenniaRTN10X, EmitterName::SeliniaARP1645, EmitterName::SENTIRM20, EmitterName::SERDAR, EmitterName::SERHAT, EmitterName::Series10CompactSubmarineRadarCSR, EmitterName::SERIES52, EmitterName::SERIES320, EmitterName::SG, EmitterName::SGJ02, EmitterName::SGJ03, EmitterName::SGR10200, EmitterName::SGR10302, EmitterName::SGR104, EmitterName::Shahed129SAR, EmitterName::SHAHINE, EmitterName::SheetBend, EmitterName::SheetCurve, EmitterName::SHIKRA, EmitterName::ShipGlobe, EmitterName::ShipWheel, EmitterName::SGR114, EmitterName::ShoreWalkA, EmitterName::ShortHorn, EmitterName::ShotDome, EmitterName::SideGlobeJN, EmitterName::PRV11, EmitterName::SideWalkA, EmitterName::SignaalDA02, EmitterName::SignaalDA05, EmitterName::SignaalDA08, EmitterName::SignaalDA082LS, EmitterName::SignaalLW04, EmitterName::SignaalLW08, EmitterName::SignaalLWOR, EmitterName::SignaalM45, EmitterName::SignaalMW08, EmitterName::SignaalSMART, EmitterName::SignaalSTING, EmitterName::SignaalSTIR, EmitterName::SignaalSTIR1_8M, EmitterName::SignaalSTIR24M, EmitterName::SignaalWM202, EmitterName::SignaalWM25, EmitterName::SignaalWM27, EmitterName::SignaalWM28, EmitterName::SignaalZW01, EmitterName::SignaalZW06, EmitterName::SignaalZW07, EmitterName::SignaalZW0800, EmitterName::SIMRAD3G, EmitterName::SIMRAD4G, EmitterName::SimradCA54, EmitterName::SIMRADHalo6, EmitterName::SkiPole, EmitterName::SkinHead, EmitterName::SkipSpin, EmitterName::SKYFENDER, EmitterName::SkyWave, EmitterName::SkyguardB, EmitterName::SKYGUARDTA, EmitterName::SKYGUARDTT, EmitterName::SkyguardLR, EmitterName::Skymaster, EmitterName::SkyWatch, EmitterName::SkyRanger, EmitterName::SKYSHADOW, EmitterName::SKYSHIELDTA, EmitterName::SL, EmitterName::SLALQ234, EmitterName::SlapShot, EmitterName::SlapShotG, EmitterName::SLC2, EmitterName::SLC2E, EmitterName::SLC4, EmitterName::SlimNet, EmitterName::SlotBackA, EmitterName::SlotBackILL, EmitterName::SlotBackB, EmitterName::SlotBackIV, EmitterName::SlotBackBTopaz, EmitterName::SlotBackE, EmitterName::SlotBackG, EmitterName::SlotBackVI, EmitterName::SlotRest, EmitterName::SM674AUPM, EmitterName::SMA3RM, EmitterName::SMA3RM20, EmitterName::SMA3RM20ASMG, EmitterName::SMABPS704, EmitterName::SMASPIN749V2, EmitterName::SMASPN703, EmitterName::SMASPN751, EmitterName::SMASPOS748, EmitterName::SMASPQ2, EmitterName::SMASPQ2D, EmitterName::SMASPQ701, EmitterName::SMASPS702, EmitterName::SMAST2OTOMATIIMH, EmitterName::SR47A, EmitterName::SMA718Beacon, EmitterName::SmallFred, EmitterName::SMARTS, EmitterName::SMARTSMk2, EmitterName::SMARTL, EmitterName::SM932, EmitterName::SmogLamp, EmitterName::SnapShot, EmitterName::SnoopDrift, EmitterName::SnoopHalf, EmitterName::SnoopHead, EmitterName::SnoopPair, EmitterName::SnoopPing1, EmitterName::SnoopPlate, EmitterName::SnoopPing, EmitterName::SnoopSlab, EmitterName::SnoopTray, EmitterName::SnoopTray1, EmitterName::SnoopTray2, EmitterName::SNOOPTRAY3, EmitterName::SnoopWatch, EmitterName::_9S18M1, EmitterName::_9S18M1E, EmitterName::SPB7, EmitterName::SnowDrop, EmitterName::SNW10, EmitterName::SO1, EmitterName::SO12, EmitterName::SOACommunist, EmitterName::SO69, EmitterName::SockEye, EmitterName::SOM64, EmitterName::Sopka, EmitterName::Sorbsiya, EmitterName::SorbtsiyaL005, EmitterName::SorbtsiyaL005S, EmitterName::SPADASIR, EmitterName::SPADATT, EmitterName::SparrowILL, EmitterName::SPERRYRASCAR, EmitterName::SPECTRA, EmitterName::SPEAR3MMW, EmitterName::SperryM3, EmitterName::SPERRYVISIONMASTERFT, EmitterName::SPEXER2000, EmitterName::SPG53F, EmitterName::SPG70, EmitterName::SPG74, EmitterName::SPG75, EmitterName::SPG76, EmitterName::SpinScanA, EmitterName::SpinScanB, EmitterName::SpinTrough, EmitterName::SPINODADDAWTR, EmitterName::SPJ40, EmitterName::SplashDrop, EmitterName::SPN2, EmitterName::SPN4, EmitterName::SPN30, EmitterName::SPN35A, EmitterName::SPN41, EmitterName::SPN42, EmitterName::SPN43A, EmitterName::SPN43B, EmitterName::SPN44, EmitterName::SPN46, EmitterName::SPN703, EmitterName::SPN720, EmitterName::SPN7281, EmitterName::SPN748, EmitterName::SPN750, EmitterName::SPO8, EmitterName::SPN753G, EmitterName::SpongeCake, EmitterName::P12, EmitterName::P18SpoonRestA, EmitterName::P18SpoonRestB, EmitterName::P18SpoonRestC, EmitterName::P18MH2, EmitterName::SporkRest, EmitterName::SPQ712, EmitterName::SPR2, EmitterName::SPR51, EmitterName::SPS5FASOL, EmitterName::SPS6, EmitterName::SPS6C, EmitterName::SPS10F, EmitterName::SPS12, EmitterName::SPS22NBUKET, EmitterName::SPS33NBUKET, EmitterName::SPS44NBUKET, EmitterName::SPS55NBUKET, EmitterName::SPS58, EmitterName::SPS62, EmitterName::SPS100K, EmitterName::SPS64, EmitterName::SPS141, EmitterName::SPS142, EmitterName::SPS143, EmitterName::SPS151, EmitterName::SPS152, EmitterName::SPS153, EmitterName::SPS160Geran, EmitterName::SPS161, EmitterName::SPS95K, EmitterName::SPS171Jammer, EmitterName::SPS172Jammer, EmitterName::SPS768, EmitterName::SPS540K, EmitterName::SPS550KMF, EmitterName::SPS774, EmitterName::SPY790, EmitterName::SquareHead, EmitterName::SquarePair, EmitterName::SquareSlot, EmitterName::SquareTie, EmitterName::Shmel, EmitterName::P15M, EmitterName::SquintEye, EmitterName::SQUIRE, EmitterName::SR2410C, EmitterName::SR47BG, EmitterName::SREM5, EmitterName::SRN6, EmitterName::SRN15, EmitterName::SRN206, EmitterName::SRN745, EmitterName::SRO1, EmitterName::SRO2, EmitterName::SSC2BSamletMG, EmitterName::SSN2ABCSSC, EmitterName::SSN2ABCSSC2A3A2MH, EmitterName::SSN2CSeeker, EmitterName::SSN2CDStyx, EmitterName::SSN2CDStyxCDMH, EmitterName::SSN2CStyxAL, EmitterName::SSN2DStyxAL, EmitterName::SSN2SSCSSC18BN, EmitterName::SSN3BSepalAL, EmitterName::SSN3BSepalMH, EmitterName::SSN7Starbright, EmitterName::SSN9Siren, EmitterName::SSN9SirenAL, EmitterName::SSN9SirenMH, EmitterName::SSN10AFL10mmWMH, EmitterName::SSN11Nasr1mmWMH, EmitterName::SSN12SandboxAL, EmitterName::SSN12YJ83JmmWMH, EmitterName::SSN12SandboxMH, EmitterName::SSNX13Shredder, EmitterName::SSN14BSilexAL, EmitterName::SSN19Shipwreck, EmitterName::SSN19ShipwreckAL, EmitterName::SSN19ShipwreckMH, EmitterName::SSN21AL, EmitterName::SSN22Sunburn, EmitterName::SSN22SunburnMH, EmitterName::SSN22SunburnAL, EmitterName::SSN25SwitchbladeMH, EmitterName::SSN26StrobileMMWMH, EmitterName::SSN27SizzlerMH, EmitterName::SSN27ASizzlerAL, EmitterName::STINGEOMk2, EmitterName::STIR1_2EOMk2, EmitterName::STIR2_4HPMk2, EmitterName::StoneCake, EmitterName::STR41, EmitterName::ST858, EmitterName::START1M, EmitterName::STENTOR, EmitterName::StormShadowAHR, EmitterName::STRAIGHTFLUSH, EmitterName::StraightFlushTA, EmitterName::StraightFlushTT, EmitterName::StraightFlushILL, EmitterName::StrikeOut, EmitterName::StrutCurve, EmitterName::StrutPair, EmitterName::StrutPair1, EmitterName::StrutPair2, EmitterName::SunVisor, EmitterName::SUPERDARN, EmitterName::Superfledermaus, EmitterName::Supersearcher, EmitterName::SwiftRod1, EmitterName::SwiftRod2, EmitterName::SYMPHONY, EmitterName::SYNAPSISMk2, EmitterName::SY80, EmitterName::T1166, EmitterName::T1171, EmitterName::T1202, EmitterName::T6004, EmitterName::T6031, EmitterName::T8067, EmitterName::T8068, EmitterName::T8124, EmitterName::T8408, EmitterName::T8911, EmitterName::T8937, EmitterName::T8944, EmitterName::T8987, EmitterName::TA10K, EmitterName::JY11B, EmitterName::TACANSURF, EmitterName::P14_2, EmitterName::TALLKINGB, EmitterName::TALLKINGC, EmitterName::TallMike, EmitterName::TallPath, EmitterName::TDR94, EmitterName::TeaSpoon, EmitterName::TeamPlay, EmitterName::TALISMAN, EmitterName::TeamWork, EmitterName::T1135, EmitterName::TANCANSURF, EmitterName::TECSAR, EmitterName::TERRASARX, EmitterName::TESAR, EmitterName::THAADGBR, EmitterName::ThalesRDY2, EmitterName::ThalesNederlandSignaalAPAR, EmitterName::ThalesScorpionJammer, EmitterName::ThalesVariant, EmitterName::ThalesICMSJammer, EmitterName::ThalesIMEWSJammer, EmitterName::THD225, EmitterName::THD1012, EmitterName::THD1098, EmitterName::THD1213, EmitterName::THD1940, EmitterName::THD1955Palmier, EmitterName::THD5500, EmitterName::ThirdofKhordad, EmitterName::ThinPath, EmitterName::PRV9, EmitterName::PRV16, EmitterName::ThompsonCSFTA10, EmitterName::ThompsonCSFTHD1040Neptune, EmitterName::ThompsonCSFCalypso, EmitterName::ThompsonCSFCASTOR, EmitterName::ThompsonCSFCastorII, EmitterName::ThomsonCSFDomino30, EmitterName::ThompsonCSFDRBC32A, EmitterName::ThompsonCSFDRBJ11DE, EmitterName::ThompsonCSFDRBV15A, EmitterName::ThompsonCSFDRBV15C, EmitterName::ThompsonCSFDRBV22D, EmitterName::ThompsonCSFDRBV23B, EmitterName::ThompsonCSFDRUA33, EmitterName::ThompsonCSFMarsDRVB21A, EmitterName::ThompsonCSFSeaTiger, EmitterName::ThompsonCSFTriton, EmitterName::ThompsonCSFVegawithDRBC32E, EmitterName::ThomsonENR, EmitterName::ThomsonRDI, EmitterName::TierIIPlus, EmitterName::TPS755, EmitterName::TPS830K, EmitterName::TRS2105, EmitterName::TR23K, EmitterName::TR23MR, EmitterName::TRAC2100, EmitterName::TRAC2300, EmitterName::HT223, EmitterName::TRADEX, EmitterName::TRAILXI, EmitterName::TRD1211, EmitterName::TRD1235, EmitterName::TRS2100, EmitterName::TRACNG, EmitterName::TieRods, EmitterName::_36D6, EmitterName::TinTrap, EmitterName::TIRSPONDER, EmitterName::TK25E5, EmitterName::TMKMk2, EmitterName::TMXMk2, EmitterName::ToadStool1, EmitterName::ToadStool2, EmitterName::ToadStool3, EmitterName::ToadStool4, EmitterName::ToadStool5, EmitterName::TokenB, EmitterName::TombStone, EmitterName::Tonson, EmitterName::TopBow, EmitterName::TopDome, EmitterName::TopKnot, EmitterName::TopMesh, EmitterName::TopPair, EmitterName::TopPlate, EmitterName::TopPlateB, EmitterName::TopSail, EmitterName::TYPE208, EmitterName::TopSteer, EmitterName::TopTrough, EmitterName::TornadoGMR, EmitterName::TornadoTFR, EmitterName::ScrumHalfTA, EmitterName::ScrumHalfTT, EmitterName::TORM2TER, EmitterName::ScrumHalfMG, EmitterName::TrackDish, EmitterName::TR47C, EmitterName::TORSOM, EmitterName::TQN2, EmitterName::TrapDoor, EmitterName::TRD1500, EmitterName::TrickShotTAR, EmitterName::TrickShotTER, EmitterName::TRISPONDE, EmitterName::TRML, EmitterName::TRS2215, EmitterName::TRML3D, EmitterName::TRMS, EmitterName::TRS2056, EmitterName::TRS3010, EmitterName::TRS2060, EmitterName::TRS2245, EmitterName::TRS2310, EmitterName::TritonG, EmitterName::TRS22XX, EmitterName::TRS3030, EmitterName::TRS3033, EmitterName::TRS3203, EmitterName::TRS3405, EmitterName::TRS3410, EmitterName::TRS3415, EmitterName::TRS3D, EmitterName::TRS3D16, EmitterName::TRS3D16ES, EmitterName::TRS3D32, EmitterName::TRS4D, EmitterName::TRSC, EmitterName::TRSN, EmitterName::TS4478A, EmitterName::TSE5000, EmitterName::TSR333, EmitterName::TSR793, EmitterName::TubBrick, EmitterName::TubeArm, EmitterName::TW1374, EmitterName::TW1378, EmitterName::TW1446, EmitterName::TwinEyes, EmitterName::TwinPill, EmitterName::TwinScan, EmitterName::TwinScanRo, EmitterName::TwoSpot, EmitterName::Type071LPD, EmitterName::Type212JA, EmitterName::Type221JA, EmitterName::Type223, EmitterName::Type80ASM1, EmitterName::Type120, EmitterName::Type208, EmitterName::Type222, EmitterName::Type226, EmitterName::Type232H, EmitterName::TYPE245, EmitterName::TYPE262, EmitterName::TYPE275, EmitterName::TYPE278, EmitterName::TYPE293, EmitterName::Type341, EmitterName::TYPE313, EmitterName::Type305A, EmitterName::Type334, EmitterName::Type342, EmitterName::TYPE343SUNVISORB, EmitterName::Type344, EmitterName::Type345, EmitterName::Type346, EmitterName::Type349A, EmitterName::TYPE347B, EmitterName::Type347G, EmitterName::Type359, EmitterName::Type352, EmitterName::Type360, EmitterName::Type362ESR1SR47B, EmitterName::Type354, EmitterName::Type366, EmitterName::Type363, EmitterName::Type364, EmitterName::Type404A, EmitterName::Type405, EmitterName::TYPE405J, EmitterName::Type408D, EmitterName::Type517B, EmitterName::Type518, EmitterName::Type589, EmitterName::TYPE651, EmitterName::Type753_1, EmitterName::Type702, EmitterName::Type704, EmitterName::Type753_2, EmitterName::Type756, EmitterName::TYPE713, EmitterName::TYPE714, EmitterName::TYPE702D, EmitterName::TYPE760, EmitterName::Type760, EmitterName::Type815, EmitterName::Type793, EmitterName::Type8A813, EmitterName::TYPE901M, EmitterName::TYPE902, EmitterName::Type902B, EmitterName::TYPE903, EmitterName::TYPE909TI, EmitterName::TYPE909TT, EmitterName::TYPE910, EmitterName::TYPE931, EmitterName::TYPE965, EmitterName::TYPE967, EmitterName::TYPE968, EmitterName::TYPE974, EmitterName::TYPE975, EmitterName::TYPE978, EmitterName::Type981, EmitterName::Type9813, EmitterName::TYPE982, EmitterName::Type984, EmitterName::Type985, EmitterName::TYPE992, EmitterName::TYPE993, EmitterName::TYPE994, EmitterName::Type996, EmitterName::Type997Artisan, EmitterName::TYPE1006_1, EmitterName::TYPE1006_2, EmitterName::TYPE1022, EmitterName::Type1047, EmitterName::Type1048, EmitterName::Type1474, EmitterName::Type1493, EmitterName::ULTRA, EmitterName::UKMK10, EmitterName::UPS220C, EmitterName::UPX110, EmitterName::UPX27, EmitterName::URN20, EmitterName::UTESA, EmitterName::UTEST, EmitterName::URN25, EmitterName::VIGILANT, EmitterName::VitebskL370Jammer, EmitterName::VOLEXIIIIV, EmitterName::VOLGA, EmitterName::VORONEZHDM, EmitterName::VOSTOK, EmitterName::VOSTOKE, EmitterName::VSR, EmitterName::VOSTOK3D, EmitterName::VSTARPT, EmitterName::W160, EmitterName::W1028, EmitterName::W8818, EmitterName::W8838, EmitterName::W8852, EmitterName::WALLBOARD, EmitterName::WallRust, EmitterName::WAS74S, EmitterName::WaspHead, EmitterName::WATCHDOG, EmitterName::WatchGuard, EmitterName::Watchman, EmitterName::WAVESTORM, EmitterName::WATCHMANS, EmitterName::WATCHMANT, EmitterName::WEATHERSCOUT2, EmitterName::WesternElectricMK10, EmitterName::WestinghouseADR4LRSR, EmitterName::WestinghouseElectricSPG50, EmitterName::WestinghouseElectricW120, EmitterName::WestinghouseSPS29C, EmitterName::WestinghouseSPS37, EmitterName::WetEye, EmitterName::WetEye2, EmitterName::WetEyeMod, EmitterName::WF44S, EmitterName::WGU41B, EmitterName::WGU44B, EmitterName::Whiff, EmitterName::WhiffBrick, EmitterName::WhiffFire, EmitterName::WHITEHOUSE, EmitterName::WideMat, EmitterName::WineGlassJammer, EmitterName::WildCard, EmitterName::WILDCAT, EmitterName::WitchEight, EmitterName::WitchFive, EmitterName::WLR, EmitterName::WM2XSeries, EmitterName::WM2XSeriesCAS, EmitterName::WR10X, EmitterName::WR2100, EmitterName::WSR74C, EmitterName::WSR74S, EmitterName::WSR81, EmitterName::WXR700C, EmitterName::WXR2100, EmitterName::WXR2100MSTT, EmitterName::WoodGage, EmitterName::XTAR25, EmitterName::XTAR3D, EmitterName::YAOGAN3, EmitterName::Yaogan29, EmitterName::YardRake, EmitterName::YH96, EmitterName::YewLoop, EmitterName::YITIANADS, EmitterName::YD3, EmitterName::YJ12MH, EmitterName::YJ62MH, EmitterName::YJ82MH, EmitterName::YJ83MH, EmitterName::YLC2, EmitterName::YLC2A, EmitterName::YLC4, EmitterName::YLC6, EmitterName::YLC6M, EmitterName::YLC8, EmitterName::YLC8B, EmitterName::YLC18, EmitterName::YoYo, EmitterName::ZaslonA, EmitterName::ZaslonMultipurpose, EmitterName::ZooPark1, EmitterName::ZPS6, EmitterName::ZOOPARK3, EmitterName::ZD12, EmitterName::ZW06, EmitterName::ANALQ1361, EmitterName::ANALQ1362, EmitterName::ANALQ1363, EmitterName::ANALQ1364, EmitterName::ANALQ1365, EmitterName::ANALQ1622, EmitterName::ANALQ1623, EmitterName::ANALQ1624, EmitterName::ZhukM, EmitterName::ZHUKMAE, EmitterName::ZHUKME, EmitterName::ZHUKMME, EmitterName::ZhukMSE], |v| v as u64), scan: None },
  EnumRow { name: "EmitterSystemFunction", bits: 8, default: 0, codes: &[("Other", 0), ("MultiFunction", 1), ("EarlyWarningSurveillance", 2), ("HeightFinder", 3), ("FireControl", 4), ("AcquisitionDetection", 5), ("Tracker", 6), ("GuidanceIllumination", 7), ("FiringPointLaunchPointLocation", 8), ("RangeOnly", 9), ("RadarAltimeter", 10), ("Imaging", 11), ("MotionDetection", 12), ("Navigation", 13), ("WeatherMeteorological", 14), ("Instrumentation", 15), ("IdentificationClassification", 16), ("AAAFireControl", 17), ("AirSearchBomb", 18), ("AirIntercept", 19), ("Altimeter", 20), ("AirMapping", 21), ("AirTrafficControl", 22), ("Beacon", 23), ("BattlefieldSurveillance", 24), ("GroundControlApproach", 25), ("GroundControlIntercept", 26), ("CoastalSurveillance", 27), ("DecoyMimic", 28), ("DataTransmission", 29), ("EarthSurveillance", 30), ("GunLayBeacon", 31), ("GroundMapping", 32), ("HarborSurveillance", 33), ("IFF", 34), ("InstrumentLandingSystem", 35), ("IonosphericSound", 36), ("Interrogator", 37), ("BarrageJamming", 38), ("ClickJamming", 39), ("DeceptiveJamming", 40), ("FrequencySweptJamming", 41), ("Jammer", 42), ("NoiseJamming", 43), ("PulsedJamming", 44), ("RepeaterJamming", 45), ("SpotNoiseJamming", 46), ("MissileAcquisition", 47), ("MissileDownlink", 48), ("Meteorological", 49), ("Space", 50), ("SurfaceSearch", 51), ("ShellTracking", 52), ("Television", 56), ("Unknown", 57), ("VideoRemoting", 58), ("ExperimentalOrTraining", 59), ("MissileGuidance", 60), ("MissileHoming", 61), ("MissileTracking", 62), ("JammingNoise", 64), ("JammingDeception", 65), ("Decoy", 66), ("NavigationDistanceMeasuringEquipment", 71), ("TerrainFollowing", 72), ("WeatherAvoidance", 73), ("ProximityFuse", 74), ("Instrumentation_", 75), ("Radiosonde", 76), ("Sonobuoy", 77), ("BathythermalSensor", 78), ("TowedCounterMeasure", 79), ("DippingSonar", 80), ("TowedAcousticSensor", 81), ("WeaponNonlethal", 96), ("WeaponLethal", 97), ("TestEquipment", 98), ("AcquisitionTrack", 99), ("TrackGuidance", 100), ("GuidanceIlluminationTrackAcquisition", 101), ("SearchAcquisition", 102), ("Dropsonde", 103)], actual: || vec![EmitterSystemFunction::Other as u64, EmitterSystemFunction::MultiFunction as u64, EmitterSystemFunction::EarlyWarningSurveillance as u64, EmitterSystemFunction::HeightFinder as u64, EmitterSystemFunction::FireControl as u64, EmitterSystemFunction::AcquisitionDetection as u64, EmitterSystemFunction::Tracker as u64, EmitterSystemFunction::GuidanceIllumination as u64, EmitterSystemFunction::FiringPointLaunchPointLocation as u64, EmitterSystemFunction::RangeOnly as u64, EmitterSystemFunction::RadarAltimeter as u64, EmitterSystemFunction::Imaging as u64, EmitterSystemFunction::MotionDetection as u64, EmitterSystemFunction::Navigation as u64, EmitterSystemFunction::WeatherMeteorological as u64, EmitterSystemFunction::Instrumentation as u64, EmitterSystemFunction::IdentificationClassification as u64, EmitterSystemFunction::AAAFireControl as u64, EmitterSystemFunction::AirSearchBomb as u64, EmitterSystemFunction::AirIntercept as u64, EmitterSystemFunction::Altimeter as u64, EmitterSystemFunction::AirMapping as u64, EmitterSystemFunction::AirTrafficControl as u64, EmitterSystemFunction::Beacon as u64, EmitterSystemFunction::BattlefieldSurveillance as u64, EmitterSystemFunction::GroundControlApproach as u64, EmitterSystemFunction::GroundControlIntercept as u64, EmitterSystemFunction::CoastalSurveillance as u64, EmitterSystemFunction::DecoyMimic as u64, EmitterSystemFunction::DataTransmission as u64, EmitterSystemFunction::EarthSurveillance as u64, EmitterSystemFunction::GunLayBeacon as u64, EmitterSystemFunction::GroundMapping as u64, EmitterSystemFunction::HarborSurveillance as u64, EmitterSystemFunction::IFF as u64, EmitterSystemFunction::InstrumentLandingSystem as u64, EmitterSystemFunction::IonosphericSound as u64, EmitterSystemFunction::Interrogator as u64, EmitterSystemFunction::BarrageJamming as u64, EmitterSystemFunction::ClickJamming as u64, EmitterSystemFunction::DeceptiveJamming as u64, EmitterSystemFunction::FrequencySweptJamming as u64, EmitterSystemFunction::Jammer as u64, EmitterSystemFunction::NoiseJamming as u64, EmitterSystemFunction::PulsedJamming as u64, EmitterSystemFunction::RepeaterJamming as u64, EmitterSystemFunction::SpotNoiseJamming as u64, EmitterSystemFunction::MissileAcquisition as u64, EmitterSystemFunction::MissileDownlink as u64, EmitterSystemFunction::Meteorological as u64, EmitterSystemFunction::Space as u64, EmitterSystemFunction::SurfaceSearch as u64, EmitterSystemFunction::ShellTracking as u64, EmitterSystemFunction::Television as u64, EmitterSystemFunction::Unknown as u64, EmitterSystemFunction::VideoRemoting as u64, EmitterSystemFunction::ExperimentalOrTraining as u64, EmitterSystemFunction::MissileGuidance as u64, EmitterSystemFunction::MissileHoming as u64, EmitterSystemFunction::MissileTracking as u64, EmitterSystemFunction::JammingNoise as u64, EmitterSystemFunction::JammingDeception as u64, EmitterSystemFunction::Decoy as u64, EmitterSystemFunction::NavigationDistanceMeasuringEquipment as u64, EmitterSystemFunction::TerrainFollowing as u64, EmitterSystemFunction::WeatherAvoidance as u64, EmitterSystemFunction::ProximityFuse as u64, EmitterSystemFunction::Instrumentation_ as u64, EmitterSystemFunction::Radiosonde as u64, EmitterSystemFunction::Sonobuoy as u64, EmitterSystemFunction::BathythermalSensor as u64, EmitterSystemFunction::TowedCounterMeasure as u64, EmitterSystemFunction::DippingSonar as u64, EmitterSystemFunction::TowedAcousticSensor as u64, EmitterSystemFunction::WeaponNonlethal as u64, EmitterSystemFunction::WeaponLethal as u64, EmitterSystemFunction::TestEquipment as u64, EmitterSystemFunction::AcquisitionTrack as u64, EmitterSystemFunction::TrackGuidance as u64, EmitterSystemFunction::GuidanceIlluminationTrackAcquisition as u64, EmitterSystemFunction::SearchAcquisition as u64, EmitterSystemFunction::Dropsonde as u64], decode: |mut b| { let v = EmitterSystemFunction::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EmitterSystemFunction as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EmitterSystemFunction::Other, EmitterSystemFunction::MultiFunction, EmitterSystemFunction::EarlyWarningSurveillance, EmitterSystemFunction::HeightFinder, EmitterSystemFunction::FireControl, EmitterSystemFunction::AcquisitionDetection, EmitterSystemFunction::Tracker, EmitterSystemFunction::GuidanceIllumination, EmitterSystemFunction::FiringPointLaunchPointLocation, EmitterSystemFunction::RangeOnly, EmitterSystemFunction::RadarAltimeter, EmitterSystemFunction::Imaging, EmitterSystemFunction::MotionDetection, EmitterSystemFunction::Navigation, EmitterSystemFunction::WeatherMeteorological, EmitterSystemFunction::Instrumentation, EmitterSystemFunction::IdentificationClassification, EmitterSystemFunction::AAAFireControl, EmitterSystemFunction::AirSearchBomb, EmitterSystemFunction::AirIntercept, EmitterSystemFunction::Altimeter, EmitterSystemFunction::AirMapping, EmitterSystemFunction::AirTrafficControl, EmitterSystemFunction::Beacon, EmitterSystemFunction::BattlefieldSurveillance, EmitterSystemFunction::GroundControlApproach, EmitterSystemFunction::GroundControlIntercept, EmitterSystemFunction::CoastalSurveillance, EmitterSystemFunction::DecoyMimic, EmitterSystemFunction::DataTransmission, EmitterSystemFunction::EarthSurveillance, EmitterSystemFunction::GunLayBeacon, EmitterSystemFunction::GroundMapping, EmitterSystemFunction::HarborSurveillance, EmitterSystemFunction::IFF, EmitterSystemFunction::InstrumentLandingSystem, EmitterSystemFunction::IonosphericSound, EmitterSystemFunction::Interrogator, EmitterSystemFunction::BarrageJamming, EmitterSystemFunction::ClickJamming, EmitterSystemFunction::DeceptiveJamming, EmitterSystemFunction::FrequencySweptJamming, EmitterSystemFunction::Jammer, EmitterSystemFunction::NoiseJamming, EmitterSystemFunction::PulsedJamming, EmitterSystemFunction::RepeaterJamming, EmitterSystemFunction::SpotNoiseJamming, EmitterSystemFunction::MissileAcquisition, EmitterSystemFunction::MissileDownlink, EmitterSystemFunction::Meteorological, EmitterSystemFunction::Space, EmitterSystemFunction::SurfaceSearch, EmitterSystemFunction::ShellTracking, EmitterSystemFunction::Television, EmitterSystemFunction::Unknown, EmitterSystemFunction::VideoRemoting, EmitterSystemFunction::ExperimentalOrTraining, EmitterSystemFunction::MissileGuidance, EmitterSystemFunction::MissileHoming, EmitterSystemFunction::MissileTracking, EmitterSystemFunction::JammingNoise, EmitterSystemFunction::JammingDeception, EmitterSystemFunction::Decoy, EmitterSystemFunction::NavigationDistanceMeasuringEquipment, EmitterSystemFunction::TerrainFollowing, EmitterSystemFunction::WeatherAvoidance, EmitterSystemFunction::ProximityFuse, EmitterSystemFunction::Instrumentation_, EmitterSystemFunction::Radiosonde, EmitterSystemFunction::Sonobuoy, EmitterSystemFunction::BathythermalSensor, EmitterSystemFunction::TowedCounterMeasure, EmitterSystemFunction::DippingSonar, EmitterSystemFunction::TowedAcousticSensor, EmitterSystemFunction::WeaponNonlethal, EmitterSystemFunction::WeaponLethal, EmitterSystemFunction::TestEquipment, EmitterSystemFunction::AcquisitionTrack, EmitterSystemFunction::TrackGuidance, EmitterSystemFunction::GuidanceIlluminationTrackAcquisition, EmitterSystemFunction::SearchAcquisition, EmitterSystemFunction::Dropsonde], |v| v as u64), scan: None },
  EnumRow { name: "ElectromagneticEmissionStateUpdateIndicator", bits: 8, default: 0, codes: &[("HeartbeatUpdate", 0), ("ChangedDataUpdate", 1)], actual: || vec![ElectromagneticEmissionStateUpdateIndicator::HeartbeatUpdate as u64, ElectromagneticEmissionStateUpdateIndicator::ChangedDataUpdate as u64], decode: |mut b| { let v = ElectromagneticEmissionStateUpdateIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ElectromagneticEmissionStateUpdateIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ElectromagneticEmissionStateUpdateIndicator::HeartbeatUpdate, ElectromagneticEmissionStateUpdateIndicator::ChangedDataUpdate], |v| v as u64), scan: None },
  EnumRow { name: "ElectromagneticEmissionBeamFunction", bits: 8, default: 0, codes: &[("Other", 0), ("Search", 1), ("HeightFinding", 2), ("Acquisition", 3), ("Tracking", 4), ("Acquisitionandtracking", 5), ("Commandguidance", 6), ("Illumination", 7), ("Ranging", 8), ("Missilebeacon", 9), ("MissileFusing", 10), ("Activeradarmissileseeker", 11), ("Jamming", 12), ("IFF", 13), ("NavigationWeather", 14), ("Meteorological", 15), ("Datatransmission", 16), ("Navigationaldirectionalbeacon", 17), ("TimeSharedSearch", 20), ("TimeSharedAcquisition", 21), ("TimeSharedTrack", 22), ("TimeSharedCommandGuidance", 23), ("TimeSharedIllumination", 24), ("TimeSharedJamming", 25)], actual: || vec![ElectromagneticEmissionBeamFunction::Other as u64, ElectromagneticEmissionBeamFunction::Search as u64, ElectromagneticEmissionBeamFunction::HeightFinding as u64, ElectromagneticEmissionBeamFunction::Acquisition as u64, ElectromagneticEmissionBeamFunction::Tracking as u64, ElectromagneticEmissionBeamFunction::Acquisitionandtracking as u64, ElectromagneticEmissionBeamFunction::Commandguidance as u64, ElectromagneticEmissionBeamFunction::Illumination as u64, ElectromagneticEmissionBeamFunction::Ranging as u64, ElectromagneticEmissionBeamFunction::Missilebeacon as u64, ElectromagneticEmissionBeamFunction::MissileFusing as u64, ElectromagneticEmissionBeamFunction::Activeradarmissileseeker as u64, ElectromagneticEmissionBeamFunction::Jamming as u64, ElectromagneticEmissionBeamFunction::IFF as u64, ElectromagneticEmissionBeamFunction::NavigationWeather as u64, ElectromagneticEmissionBeamFunction::Meteorological as u64, ElectromagneticEmissionBeamFunction::Datatransmission as u64, ElectromagneticEmissionBeamFunction::Navigationaldirectionalbeacon as u64, ElectromagneticEmissionBeamFunction::TimeSharedSearch as u64, ElectromagneticEmissionBeamFunction::TimeSharedAcquisition as u64, ElectromagneticEmissionBeamFunction::TimeSharedTrack as u64, ElectromagneticEmissionBeamFunction::TimeSharedCommandGuidance as u64, ElectromagneticEmissionBeamFunction::TimeSharedIllumination as u64, ElectromagneticEmissionBeamFunction::TimeSharedJamming as u64], decode: |mut b| { let v = ElectromagneticEmissionBeamFunction::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ElectromagneticEmissionBeamFunction as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ElectromagneticEmissionBeamFunction::Other, ElectromagneticEmissionBeamFunction::Search, ElectromagneticEmissionBeamFunction::HeightFinding, ElectromagneticEmissionBeamFunction::Acquisition, ElectromagneticEmissionBeamFunction::Tracking, ElectromagneticEmissionBeamFunction::Acquisitionandtracking, ElectromagneticEmissionBeamFunction::Commandguidance, ElectromagneticEmissionBeamFunction::Illumination, ElectromagneticEmissionBeamFunction::Ranging, ElectromagneticEmissionBeamFunction::Missilebeacon, ElectromagneticEmissionBeamFunction::MissileFusing, ElectromagneticEmissionBeamFunction::Activeradarmissileseeker, ElectromagneticEmissionBeamFunction::Jamming, ElectromagneticEmissionBeamFunction::IFF, ElectromagneticEmissionBeamFunction::NavigationWeather, ElectromagneticEmissionBeamFunction::Meteorological, ElectromagneticEmissionBeamFunction::Datatransmission, ElectromagneticEmissionBeamFunction::Navigationaldirectionalbeacon, ElectromagneticEmissionBeamFunction::TimeSharedSearch, ElectromagneticEmissionBeamFunction::TimeSharedAcquisition, ElectromagneticEmissionBeamFunction::TimeSharedTrack, ElectromagneticEmissionBeamFunction::TimeSharedCommandGuidance, ElectromagneticEmissionBeamFunction::TimeSharedIllumination, ElectromagneticEmissionBeamFunction::TimeSharedJamming], |v| v as u64), scan: None },
  EnumRow { name: "HighDensityTrackJam", bits: 8, default: 0, codes: &[("NotSelected", 0), ("Selected", 1)], actual: || vec![HighDensityTrackJam::NotSelected as u64, HighDensityTrackJam::Selected as u64], decode: |mut b| { let v = HighDensityTrackJam::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <HighDensityTrackJam as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[HighDensityTrackJam::NotSelected, HighDensityTrackJam::Selected], |v| v as u64), scan: None },
  EnumRow { name: "DesignatorSystemName", bits: 16, default: 0, codes: &[("NotSpecified", 0), ("ANAAQ4", 1000), ("ANAAQ7", 1100), ("ANAAQ8", 1200), ("ANAAQ14LANTIRN", 1300), ("ANAAQ19", 1400), ("ANAAQ22ASAFIRE", 1500), ("ANAAQ22BSAFIRELP", 1600), ("ANAAQ22CStarSAFIREI", 1700), ("ANAAQ22DBRITEStar", 1800), ("ANAAQ24DIRCMNemesis", 1900), ("ANAAQ25LTS", 2000), ("ANAAQ28LITENINGII", 2100), ("ANAAQ30", 2200), ("ANAAQ32", 2300), ("ANAAQ33Sniper", 2400), ("ANAAQ37", 2500), ("ANAAQ38", 2600), ("ANAAQ40", 2650), ("ANAAS32", 2700), ("ANAAS35V", 2800), ("ANAAS37", 2900), ("ANAAS38", 3000), ("ANAAS44", 3100), ("ANAAS46", 3200), ("ANAAS49", 3300), ("ANAAS51", 3400), ("ANAAS52MTSA", 3500), ("ANALQ10", 3600), ("ANASQ228", 3700), ("ANAVQ25", 4400), ("ANAVQ26", 4500), ("ANGVS5", 4600), ("ANPED1LLDR", 4700), ("TADSLRFD", 4800), ("MMSLRFD", 4900), ("AH1CNITE", 5000), ("MATES", 5100), ("TCV115", 5200), ("TIM", 5300), ("TMS303", 5400), ("TMY303", 5500), ("ALRAD", 5600), ("RFTDL", 5700), ("VVLR", 5800), ("P0705HELL", 6000), ("P0708PULSE", 6100), ("HELD", 6200), ("TYPE105", 6300), ("TYPE118", 6400), ("TYPE121", 6500), ("TYPE126", 6600), ("TYPE629", 6700), ("CLDS", 6800), ("TAV38", 6900), ("TMV630", 7000), ("ALTM1020", 7100), ("ALATS", 7200), ("DarkStarLAMPS", 7300), ("GLTDII", 7400), ("MBTELRF", 7500), ("MarkVII", 7600), ("SIREV", 7700), ("ANAAQ16B", 7800), ("ANAAQ16DAESOP", 7900), ("ANAAQ21StarSAFIREIII", 8000), ("ANAAQ22EBRITEStar", 8100), ("ANAAQ36StarSAFIREII", 8200), ("ANAAS38ANiteHawk", 8300), ("ANAAS38BNiteHawk", 8400), ("ANAAS44C", 8500), ("ANAAS53CSP", 8600), ("ANASQ28ATFLIR", 8700), ("ANDAS1MTSB", 8800), ("ANPAQ1LTD", 8900), ("ANPAQ3MULE", 9000), ("ANPEQ1SOFLAM", 9090), ("ANPEQ3", 9100), ("ANPEQ15ATPIAL", 9140), ("ANPEQ18IZLID1000P", 9150), ("ANTVQ2GVLLD", 9200), ("ANZSQ21EOS", 9300), ("ANZSQ22EOS", 9400), ("CIRCM", 9500), ("Guardian", 9600), ("IZLID200P", 9700), ("IZLID1000PW", 9800), ("MMS", 9900), ("MTADSPNVSArrowhead", 10000), ("RBS70", 10100), ("RBS90", 10200), ("TADSPNVS", 10300), ("COLIBRI", 10400), ("Damocles", 10500), ("I251Shkval", 10600), ("KPS53AVEOTS", 10700), ("StarSAFIRE380", 10800), ("JANUSTEOS", 10900), ("LOTHAREOS", 11000), ("MK46MOD1EOS", 11100), ("MTK201MEEOS", 11200), ("ThalesMiradorMk2EOS", 11300), ("TPN1M4923EOS", 11400)], actual: || vec![DesignatorSystemName::NotSpecified as u64, DesignatorSystemName::ANAAQ4 as u64, DesignatorSystemName::ANAAQ7 as u64, DesignatorSystemName::ANAAQ8 as u64, DesignatorSystemName::ANAAQ14LANTIRN as u64, DesignatorSystemName::ANAAQ19 as u64, DesignatorSystemName::ANAAQ22ASAFIRE as u64, DesignatorSystemName::ANAAQ22BSAFIRELP as u64, DesignatorSystemName::ANAAQ22CStarSAFIREI as u64, DesignatorSystemName::ANAAQ22DBRITEStar as u64, DesignatorSystemName::ANAAQ24DIRCMNemesis as u64, DesignatorSystemName::ANAAQ25LTS as u64, DesignatorSystemName::ANAAQ28LITENINGII as u64, DesignatorSystemName::ANAAQ30 as u64, DesignatorSystemName::ANAAQ32 as u64, DesignatorSystemName::ANAAQ33Sniper as u64, DesignatorSystemName::ANAAQ37 as u64, DesignatorSystemName::ANAAQ38 as u64, DesignatorSystemName::ANAAQ40 as u64, DesignatorSystemName::ANAAS32 as u64, DesignatorSystemName::ANAAS35V as u64, DesignatorSystemName::ANAAS37 as u64, DesignatorSystemName::ANAAS38 as u64, DesignatorSystemName::ANAAS44 as u64, DesignatorSystemName::ANAAS46 as u64, DesignatorSystemName::ANAAS49 as u64, DesignatorSystemName::ANAAS51 as u64, DesignatorSystemName::ANAAS52MTSA as u64, DesignatorSystemName::ANALQ10 as u64, DesignatorSystemName::ANASQ228 as u64, DesignatorSystemName::ANAVQ25 as u64, DesignatorSystemName::ANAVQ26 as u64, DesignatorSystemName::ANGVS5 as u64, DesignatorSystemName::ANPED1LLDR as u64, DesignatorSystemName::TADSLRFD as u64, DesignatorSystemName::MMSLRFD as u64, DesignatorSystemName::AH1CNITE as u64, DesignatorSystemName::MATES as u64, DesignatorSystemName::TCV115 as u64, DesignatorSystemName::TIM as u64, DesignatorSystemName::TMS303 as u64, DesignatorSystemName::TMY303 as u64, DesignatorSystemName::ALRAD as u64, DesignatorSystemName::RFTDL as u64, DesignatorSystemName::VVLR as u64, DesignatorSystemName::P0705HELL as u64, DesignatorSystemName::P0708PULSE as u64, DesignatorSystemName::HELD as u64, DesignatorSystemName::TYPE105 as u64, DesignatorSystemName::TYPE118 as u64, DesignatorSystemName::TYPE121 as u64, DesignatorSystemName::TYPE126 as u64, DesignatorSystemName::TYPE629 as u64, DesignatorSystemName::CLDS as u64, DesignatorSystemName::TAV38 as u64, DesignatorSystemName::TMV630 as u64, DesignatorSystemName::ALTM1020 as u64, DesignatorSystemName::ALATS as u64, DesignatorSystemName::DarkStarLAMPS as u64, DesignatorSystemName::GLTDII as u64, DesignatorSystemName::MBTELRF as u64, DesignatorSystemName::MarkVII as u64, DesignatorSystemName::SIREV as u64, DesignatorSystemName::ANAAQ16B as u64, DesignatorSystemName::ANAAQ16DAESOP as u64, DesignatorSystemName::ANAAQ21StarSAFIREIII as u64, DesignatorSystemName::ANAAQ22EBRITEStar as u64, DesignatorSystemName::ANAAQ36StarSAFIREII as u64, DesignatorSystemName::ANAAS38ANiteHawk as u64, DesignatorSystemName::ANAAS38BNiteHawk as u64, DesignatorSystemName::ANAAS44C as u64, DesignatorSystemName::ANAAS53CSP as u64, DesignatorSystemName::ANASQ28ATFLIR as u64, DesignatorSystemName::ANDAS1MTSB as u64, DesignatorSystemName::ANPAQ1LTD as u64, DesignatorSystemName::ANPAQ3MULE as u64, DesignatorSystemName::ANPEQ1SOFLAM as u64, DesignatorSystemName::ANPEQ3 as u64, DesignatorSystemName::ANPEQ15ATPIAL as u64, DesignatorSystemName::ANPEQ18IZLID1000P as u64, DesignatorSystemName::ANTVQ2GVLLD as u64, DesignatorSystemName::ANZSQ21EOS as u64, DesignatorSystemName::ANZSQ22EOS as u64, DesignatorSystemName::CIRCM as u64, DesignatorSystemName::Guardian as u64, DesignatorSystemName::IZLID200P as u64, DesignatorSystemName::IZLID1000PW as u64, DesignatorSystemName::MMS as u64, DesignatorSystemName::MTADSPNVSArrowhead as u64, DesignatorSystemName::RBS70 as u64, DesignatorSystemName::RBS90 as u64, DesignatorSystemName::TADSPNVS as u64, DesignatorSystemName::COLIBRI as u64, DesignatorSystemName::Damocles as u64, DesignatorSystemName::I251Shkval as u64, DesignatorSystemName::KPS53AVEOTS as u64, DesignatorSystemName::StarSAFIRE380 as u64, DesignatorSystemName::JANUSTEOS as u64, DesignatorSystemName::LOTHAREOS as u64, DesignatorSystemName::MK46MOD1EOS as u64, DesignatorSystemName::MTK201MEEOS as u64, DesignatorSystemName::ThalesMiradorMk2EOS as u64, DesignatorSystemName::TPN1M4923EOS as u64], decode: |mut b| { let v = DesignatorSystemName::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DesignatorSystemName as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_DESIGNATORSYSTEMNAME[i], b), |mut b| <DesignatorSystemName as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_DESIGNATORSYSTEMNAME[i]))), pairs: || crate::core::pairs(&[DesignatorSystemName::NotSpecified, DesignatorSystemName::ANAAQ4, DesignatorSystemName::ANAAQ7, DesignatorSystemName::ANAAQ8, DesignatorSystemName::ANAAQ14LANTIRN, DesignatorSystemName::ANAAQ19, DesignatorSystemName::ANAAQ22ASAFIRE, DesignatorSystemName::ANAAQ22BSAFIRELP, DesignatorSystemName::ANAAQ22CStarSAFIREI, DesignatorSystemName::ANAAQ22DBRITEStar, DesignatorSystemName::ANAAQ24DIRCMNemesis, DesignatorSystemName::ANAAQ25LTS, DesignatorSystemName::ANAAQ28LITENINGII, DesignatorSystemName::ANAAQ30, DesignatorSystemName::ANAAQ32, DesignatorSystemName::ANAAQ33Sniper, DesignatorSystemName::ANAAQ37, DesignatorSystemName::ANAAQ38, DesignatorSystemName::ANAAQ40, DesignatorSystemName::ANAAS32, DesignatorSystemName::ANAAS35V, DesignatorSystemName::ANAAS37, DesignatorSystemName::ANAAS38, DesignatorSystemName::ANAAS44, DesignatorSystemName::ANAAS46, DesignatorSystemName::ANAAS49, DesignatorSystemName::ANAAS51, DesignatorSystemName::ANAAS52MTSA, DesignatorSystemName::ANALQ10, DesignatorSystemName::ANASQ228, DesignatorSystemName::ANAVQ25, DesignatorSystemName::ANAVQ26, DesignatorSystemName::ANGVS5, DesignatorSystemName::ANPED1LLDR, DesignatorSystemName::TADSLRFD, DesignatorSystemName::MMSLRFD, DesignatorSystemName::AH1CNITE, DesignatorSystemName::MATES, DesignatorSystemName::TCV115, DesignatorSystemName::TIM, DesignatorSystemName::TMS303, DesignatorSystemName::TMY303, DesignatorSystemName::ALRAD, DesignatorSystemName::RFTDL, DesignatorSystemName::VVLR, DesignatorSystemName::P0705HELL, DesignatorSystemName::P0708PULSE, DesignatorSystemName::HELD, DesignatorSystemName::TYPE105, DesignatorSystemName::TYPE118, DesignatorSystemName::TYPE121, DesignatorSystemName::TYPE126, DesignatorSystemName::TYPE629, DesignatorSystemName::CLDS, DesignatorSystemName::TAV38, DesignatorSystemName::TMV630, DesignatorSystemName::ALTM1020, DesignatorSystemName::ALATS, DesignatorSystemName::DarkStarLAMPS, DesignatorSystemName::GLTDII, DesignatorSystemName::MBTELRF, DesignatorSystemName::MarkVII, DesignatorSystemName::SIREV, DesignatorSystemName::ANAAQ16B, DesignatorSystemName::ANAAQ16DAESOP, DesignatorSystemName::ANAAQ21StarSAFIREIII, DesignatorSystemName::ANAAQ22EBRITEStar, DesignatorSystemName::ANAAQ36StarSAFIREII, DesignatorSystemName::ANAAS38ANiteHawk, DesignatorSystemName::ANAAS38BNiteHawk, DesignatorSystemName::ANAAS44C, DesignatorSystemName::ANAAS53CSP, DesignatorSystemName::ANASQ28ATFLIR, DesignatorSystemName::ANDAS1MTSB, DesignatorSystemName::ANPAQ1LTD, DesignatorSystemName::ANPAQ3MULE, DesignatorSystemName::ANPEQ1SOFLAM, DesignatorSystemName::ANPEQ3, DesignatorSystemName::ANPEQ15ATPIAL, DesignatorSystemName::ANPEQ18IZLID1000P, DesignatorSystemName::ANTVQ2GVLLD, DesignatorSystemName::ANZSQ21EOS, DesignatorSystemName::ANZSQ22EOS, DesignatorSystemName::CIRCM, DesignatorSystemName::Guardian, DesignatorSystemName::IZLID200P, DesignatorSystemName::IZLID1000PW, DesignatorSystemName::MMS, DesignatorSystemName::MTADSPNVSArrowhead, DesignatorSystemName::RBS70, DesignatorSystemName::RBS90, DesignatorSystemName::TADSPNVS, DesignatorSystemName::COLIBRI, DesignatorSystemName::Damocles, DesignatorSystemName::I251Shkval, DesignatorSystemName::KPS53AVEOTS, DesignatorSystemName::StarSAFIRE380, DesignatorSystemName::JANUSTEOS, DesignatorSystemName::LOTHAREOS, DesignatorSystemName::MK46MOD1EOS, DesignatorSystemName::MTK201MEEOS, DesignatorSystemName::ThalesMiradorMk2EOS, DesignatorSystemName::TPN1M4923EOS], |v| v as u64), scan: None },
  EnumRow { name: "DesignatorCode", bits: 16, default: 0, codes: &[("Other", 0)], actual: || vec![DesignatorCode::Other as u64], decode: |mut b| { let v = DesignatorCode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DesignatorCode as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_DESIGNATORCODE[i], b), |mut b| <DesignatorCode as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_DESIGNATORCODE[i]))), pairs: || crate::core::pairs(&[DesignatorCode::Other], |v| v as u64), scan: None },
  EnumRow { name: "IFFSystemType", bits: 16, default: 0, codes: &[("NotUsed", 0), ("MarkXXIIATCRBSTransponder", 1), ("MarkXXIIATCRBSInterrogator", 2), ("SovietTransponder", 3), ("SovietInterrogator", 4), ("RRBTransponder", 5), ("MarkXIIAInterrogator", 6), ("Mode5Interrogator", 7), ("ModeSInterrogator", 8), ("MarkXIIATransponder", 9), ("Mode5Transponder", 10), ("ModeSTransponder", 11), ("MarkXIIACombinedInterrogatorTransponder", 12), ("MarkXIICombinedInterrogatorTransponder", 13), ("TCASACASTransceiver", 14)], actual: || vec![IFFSystemType::NotUsed as u64, IFFSystemType::MarkXXIIATCRBSTransponder as u64, IFFSystemType::MarkXXIIATCRBSInterrogator as u64, IFFSystemType::SovietTransponder as u64, IFFSystemType::SovietInterrogator as u64, IFFSystemType::RRBTransponder as u64, IFFSystemType::MarkXIIAInterrogator as u64, IFFSystemType::Mode5Interrogator as u64, IFFSystemType::ModeSInterrogator as u64, IFFSystemType::MarkXIIATransponder as u64, IFFSystemType::Mode5Transponder as u64, IFFSystemType::ModeSTransponder as u64, IFFSystemType::MarkXIIACombinedInterrogatorTransponder as u64, IFFSystemType::MarkXIICombinedInterrogatorTransponder as u64, IFFSystemType::TCASACASTransceiver as u64], decode: |mut b| { let v = IFFSystemType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IFFSystemType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IFFSystemType::NotUsed, IFFSystemType::MarkXXIIATCRBSTransponder, IFFSystemType::MarkXXIIATCRBSInterrogator, IFFSystemType::SovietTransponder, IFFSystemType::SovietInterrogator, IFFSystemType::RRBTransponder, IFFSystemType::MarkXIIAInterrogator, IFFSystemType::Mode5Interrogator, IFFSystemType::ModeSInterrogator, IFFSystemType::MarkXIIATransponder, IFFSystemType::Mode5Transponder, IFFSystemType::ModeSTransponder, IFFSystemType::MarkXIIACombinedInterrogatorTransponder, IFFSystemType::MarkXIICombinedInterrogatorTransponder, IFFSystemType::TCASACASTransceiver], |v| v as u64), scan: None },
  EnumRow { name: "IFFSystemName", bits: 16, default: 0, codes: &[("NotUsed", 0), ("GenericMarkX", 1), ("GenericMarkXII", 2), ("GenericATCRBS", 3), ("GenericSoviet", 4), ("GenericModeS", 5), ("GenericMarkXXIIATCRBS", 6), ("GenericMarkXXIIATCRBSModeS", 7), ("ARI5954", 8), ("ARI5983", 9), ("GenericRRB", 10), ("GenericMarkXIIA", 11), ("GenericMode5", 12), ("GenericMarkXIIACombinedInterrogatorTransponder", 13), ("GenericMarkXIICombinedInterrogatorTransponder", 14), ("GenericTCASIACASITransceiver", 15), ("GenericTCASIIACASIITransceiver", 16), ("GenericMarkXA", 17), ("GenericMarkXSIF", 18)], actual: || vec![IFFSystemName::NotUsed as u64, IFFSystemName::GenericMarkX as u64, IFFSystemName::GenericMarkXII as u64, IFFSystemName::GenericATCRBS as u64, IFFSystemName::GenericSoviet as u64, IFFSystemName::GenericModeS as u64, IFFSystemName::GenericMarkXXIIATCRBS as u64, IFFSystemName::GenericMarkXXIIATCRBSModeS as u64, IFFSystemName::ARI5954 as u64, IFFSystemName::ARI5983 as u64, IFFSystemName::GenericRRB as u64, IFFSystemName::GenericMarkXIIA as u64, IFFSystemName::GenericMode5 as u64, IFFSystemName::GenericMarkXIIACombinedInterrogatorTransponder as u64, IFFSystemName::GenericMarkXIICombinedInterrogatorTransponder as u64, IFFSystemName::GenericTCASIACASITransceiver as u64, IFFSystemName::GenericTCASIIACASIITransceiver as u64, IFFSystemName::GenericMarkXA as u64, IFFSystemName::GenericMarkXSIF as u64], decode: |mut b| { let v = IFFSystemName::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IFFSystemName as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IFFSystemName::NotUsed, IFFSystemName::GenericMarkX, IFFSystemName::GenericMarkXII, IFFSystemName::GenericATCRBS, IFFSystemName::GenericSoviet, IFFSystemName::GenericModeS, IFFSystemName::GenericMarkXXIIATCRBS, IFFSystemName::GenericMarkXXIIATCRBSModeS, IFFSystemName::ARI5954, IFFSystemName::ARI5983, IFFSystemName::GenericRRB, IFFSystemName::GenericMarkXIIA, IFFSystemName::GenericMode5, IFFSystemName::GenericMarkXIIACombinedInterrogatorTransponder, IFFSystemName::GenericMarkXIICombinedInterrogatorTransponder, IFFSystemName::GenericTCASIACASITransceiver, IFFSystemName::GenericTCASIIACASIITransceiver, IFFSystemName::GenericMarkXA, IFFSystemName::GenericMarkXSIF], |v| v as u64), scan: None },
  EnumRow { name: "IFFSystemMode", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Off", 1), ("Standby", 2), ("Normal", 3), ("Emergency", 4), ("LoworLowSensitivity", 5)], actual: || vec![IFFSystemMode::NoStatement as u64, IFFSystemMode::Off as u64, IFFSystemMode::Standby as u64, IFFSystemMode::Normal as u64, IFFSystemMode::Emergency as u64, IFFSystemMode::LoworLowSensitivity as u64], decode: |mut b| { let v = IFFSystemMode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IFFSystemMode as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IFFSystemMode::NoStatement, IFFSystemMode::Off, IFFSystemMode::Standby, IFFSystemMode::Normal, IFFSystemMode::Emergency, IFFSystemMode::LoworLowSensitivity], |v| v as u64), scan: None },
  EnumRow { name: "IFFLayerSpecificInformation", bits: 8, default: 0, codes: &[("NoLayerSpecificInformationIsPresent", 0)], actual: || vec![IFFLayerSpecificInformation::NoLayerSpecificInformationIsPresent as u64], decode: |mut b| { let v = IFFLayerSpecificInformation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IFFLayerSpecificInformation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IFFLayerSpecificInformation::NoLayerSpecificInformationIsPresent], |v| v as u64), scan: None },
  EnumRow { name: "IFFAlternateMode4ChallengeReply", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Valid", 1), ("Invalid", 2), ("Noresponse", 3), ("UnabletoVerify", 4)], actual: || vec![IFFAlternateMode4ChallengeReply::NoStatement as u64, IFFAlternateMode4ChallengeReply::Valid as u64, IFFAlternateMode4ChallengeReply::Invalid as u64, IFFAlternateMode4ChallengeReply::Noresponse as u64, IFFAlternateMode4ChallengeReply::UnabletoVerify as u64], decode: |mut b| { let v = IFFAlternateMode4ChallengeReply::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IFFAlternateMode4ChallengeReply as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IFFAlternateMode4ChallengeReply::NoStatement, IFFAlternateMode4ChallengeReply::Valid, IFFAlternateMode4ChallengeReply::Invalid, IFFAlternateMode4ChallengeReply::Noresponse, IFFAlternateMode4ChallengeReply::UnabletoVerify], |v| v as u64), scan: None },
  EnumRow { name: "IFFSystemType1OperationalParameter1", bits: 8, default: 0, codes: &[("NoOperationalParameter1Data", 0)], actual: || vec![IFFSystemType1OperationalParameter1::NoOperationalParameter1Data as u64], decode: |mut b| { let v = IFFSystemType1OperationalParameter1::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IFFSystemType1OperationalParameter1 as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IFFSystemType1OperationalParameter1::NoOperationalParameter1Data], |v| v as u64), scan: None },
  EnumRow { name: "IFFSystemType1OperationalParameter2", bits: 8, default: 0, codes: &[("NoOperationalParameter2Data", 0)], actual: || vec![IFFSystemType1OperationalParameter2::NoOperationalParameter2Data as u64], decode: |mut b| { let v = IFFSystemType1OperationalParameter2::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IFFSystemType1OperationalParameter2 as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IFFSystemType1OperationalParameter2::NoOperationalParameter2Data], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforLandCategory200Mammal", bits: 8, default: 1, codes: &[("SmallDog", 1), ("Chihuahua", 2), ("MediumDog", 10), ("AustralianCattleDog", 11), ("LargeDog", 20), ("GermanShepherd", 21), ("VeryLargeDog", 30), ("GiantTurkishKangal", 31), ("Sheep", 40), ("Goat", 41), ("Pig", 50), ("Cow", 60), ("Ox", 61), ("OxWithCart", 70), ("Horse", 80), ("Donkey", 81), ("Mule", 82), ("HorseWithRider", 90), ("HorseWithCargo", 91), ("DonkeyWithRider", 92), ("DonkeyWithCargo", 93), ("MuleWithRider", 94), ("MuleWithCargo", 95), ("Camel", 100), ("DromedaryCamel", 101), ("BactrianCamel", 102), ("DromedaryCamelWithRider", 110), ("DromedaryCamelWithCargo", 111), ("Rat", 200)], actual: || vec![SubcategoriesforLandCategory200Mammal::SmallDog as u64, SubcategoriesforLandCategory200Mammal::Chihuahua as u64, SubcategoriesforLandCategory200Mammal::MediumDog as u64, SubcategoriesforLandCategory200Mammal::AustralianCattleDog as u64, SubcategoriesforLandCategory200Mammal::LargeDog as u64, SubcategoriesforLandCategory200Mammal::GermanShepherd as u64, SubcategoriesforLandCategory200Mammal::VeryLargeDog as u64, SubcategoriesforLandCategory200Mammal::GiantTurkishKangal as u64, SubcategoriesforLandCategory200Mammal::Sheep as u64, SubcategoriesforLandCategory200Mammal::Goat as u64, SubcategoriesforLandCategory200Mammal::Pig as u64, SubcategoriesforLandCategory200Mammal::Cow as u64, SubcategoriesforLandCategory200Mammal::Ox as u64, SubcategoriesforLandCategory200Mammal::OxWithCart as u64, SubcategoriesforLandCategory200Mammal::Horse as u64, SubcategoriesforLandCategory200Mammal::Donkey as u64, SubcategoriesforLandCategory200Mammal::Mule as u64, SubcategoriesforLandCategory200Mammal::HorseWithRider as u64, SubcategoriesforLandCategory200Mammal::HorseWithCargo as u64, SubcategoriesforLandCategory200Mammal::DonkeyWithRider as u64, SubcategoriesforLandCategory200Mammal::DonkeyWithCargo as u64, SubcategoriesforLandCategory200Mammal::MuleWithRider as u64, SubcategoriesforLandCategory200Mammal::MuleWithCargo as u64, SubcategoriesforLandCategory200Mammal::Camel as u64, SubcategoriesforLandCategory200Mammal::DromedaryCamel as u64, SubcategoriesforLandCategory200Mammal::BactrianCamel as u64, SubcategoriesforLandCategory200Mammal::DromedaryCamelWithRider as u64, SubcategoriesforLandCategory200Mammal::DromedaryCamelWithCargo as u64, SubcategoriesforLandCategory200Mammal::Rat as u64], decode: |mut b| { let v = SubcategoriesforLandCategory200Mammal::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforLandCategory200Mammal as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforLandCategory200Mammal::SmallDog, SubcategoriesforLandCategory200Mammal::Chihuahua, SubcategoriesforLandCategory200Mammal::MediumDog, SubcategoriesforLandCategory200Mammal::AustralianCattleDog, SubcategoriesforLandCategory200Mammal::LargeDog, SubcategoriesforLandCategory200Mammal::GermanShepherd, SubcategoriesforLandCategory200Mammal::VeryLargeDog, SubcategoriesforLandCategory200Mammal::GiantTurkishKangal, SubcategoriesforLandCategory200Mammal::Sheep, SubcategoriesforLandCategory200Mammal::Goat, SubcategoriesforLandCategory200Mammal::Pig, SubcategoriesforLandCategory200Mammal::Cow, SubcategoriesforLandCategory200Mammal::Ox, SubcategoriesforLandCategory200Mammal::OxWithCart, SubcategoriesforLandCategory200Mammal::Horse, SubcategoriesforLandCategory200Mammal::Donkey, SubcategoriesforLandCategory200Mammal::Mule, SubcategoriesforLandCategory200Mammal::HorseWithRider, SubcategoriesforLandCategory200Mammal::HorseWithCargo, SubcategoriesforLandCategory200Mammal::DonkeyWithRider, SubcategoriesforLandCategory200Mammal::DonkeyWithCargo, SubcategoriesforLandCategory200Mammal::MuleWithRider, SubcategoriesforLandCategory200Mammal::MuleWithCargo, SubcategoriesforLandCategory200Mammal::Camel, SubcategoriesforLandCategory200Mammal::DromedaryCamel, SubcategoriesforLandCategory200Mammal::BactrianCamel, SubcategoriesforLandCategory200Mammal::DromedaryCamelWithRider, SubcategoriesforLandCategory200Mammal::DromedaryCamelWithCargo, SubcategoriesforLandCategory200Mammal::Rat], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforLandCategory201Reptile", bits: 8, default: 1, codes: &[("NewZealandNorthernTuatara", 1), ("Monitor", 3), ("Gecko", 8), ("Iguana", 13), ("Chameleon", 17), ("NonVenomousSnake", 30), ("Boa", 31), ("Python", 35), ("Bullsnake", 39), ("Kingsnake", 43), ("VenomousSnake", 60), ("Rattlesnake", 61), ("Copperhead", 62), ("Cottonmouth", 63), ("Taipan", 64), ("Viper", 65), ("Cobra", 66), ("AustralianBrownSnake", 67), ("Tortoise", 90), ("Turtle", 100), ("AmericanAlligator", 120), ("Crocodile", 121), ("AustralianFreshwaterCrocodile", 122)], actual: || vec![SubcategoriesforLandCategory201Reptile::NewZealandNorthernTuatara as u64, SubcategoriesforLandCategory201Reptile::Monitor as u64, SubcategoriesforLandCategory201Reptile::Gecko as u64, SubcategoriesforLandCategory201Reptile::Iguana as u64, SubcategoriesforLandCategory201Reptile::Chameleon as u64, SubcategoriesforLandCategory201Reptile::NonVenomousSnake as u64, SubcategoriesforLandCategory201Reptile::Boa as u64, SubcategoriesforLandCategory201Reptile::Python as u64, SubcategoriesforLandCategory201Reptile::Bullsnake as u64, SubcategoriesforLandCategory201Reptile::Kingsnake as u64, SubcategoriesforLandCategory201Reptile::VenomousSnake as u64, SubcategoriesforLandCategory201Reptile::Rattlesnake as u64, SubcategoriesforLandCategory201Reptile::Copperhead as u64, SubcategoriesforLandCategory201Reptile::Cottonmouth as u64, SubcategoriesforLandCategory201Reptile::Taipan as u64, SubcategoriesforLandCategory201Reptile::Viper as u64, SubcategoriesforLandCategory201Reptile::Cobra as u64, SubcategoriesforLandCategory201Reptile::AustralianBrownSnake as u64, SubcategoriesforLandCategory201Reptile::Tortoise as u64, SubcategoriesforLandCategory201Reptile::Turtle as u64, SubcategoriesforLandCategory201Reptile::AmericanAlligator as u64, SubcategoriesforLandCategory201Reptile::Crocodile as u64, SubcategoriesforLandCategory201Reptile::AustralianFreshwaterCrocodile as u64], decode: |mut b| { let v = SubcategoriesforLandCategory201Reptile::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforLandCategory201Reptile as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforLandCategory201Reptile::NewZealandNorthernTuatara, SubcategoriesforLandCategory201Reptile::Monitor, SubcategoriesforLandCategory201Reptile::Gecko, SubcategoriesforLandCategory201Reptile::Iguana, SubcategoriesforLandCategory201Reptile::Chameleon, SubcategoriesforLandCategory201Reptile::NonVenomousSnake, SubcategoriesforLandCategory201Reptile::Boa, SubcategoriesforLandCategory201Reptile::Python, SubcategoriesforLandCategory201Reptile::Bullsnake, SubcategoriesforLandCategory201Reptile::Kingsnake, SubcategoriesforLandCategory201Reptile::VenomousSnake, SubcategoriesforLandCategory201Reptile::Rattlesnake, SubcategoriesforLandCategory201Reptile::Copperhead, SubcategoriesforLandCategory201Reptile::Cottonmouth, SubcategoriesforLandCategory201Reptile::Taipan, SubcategoriesforLandCategory201Reptile::Viper, SubcategoriesforLandCategory201Reptile::Cobra, SubcategoriesforLandCategory201Reptile::AustralianBrownSnake, SubcategoriesforLandCategory201Reptile::Tortoise, SubcategoriesforLandCategory201Reptile::Turtle, SubcategoriesforLandCategory201Reptile::AmericanAlligator, SubcategoriesforLandCategory201Reptile::Crocodile, SubcategoriesforLandCategory201Reptile::AustralianFreshwaterCrocodile], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforLandCategory202Amphibian", bits: 8, default: 1, codes: &[("Frog", 1), ("Toad", 2), ("Salamander", 170), ("Caecilian", 230)], actual: || vec![SubcategoriesforLandCategory202Amphibian::Frog as u64, SubcategoriesforLandCategory202Amphibian::Toad as u64, SubcategoriesforLandCategory202Amphibian::Salamander as u64, SubcategoriesforLandCategory202Amphibian::Caecilian as u64], decode: |mut b| { let v = SubcategoriesforLandCategory202Amphibian::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforLandCategory202Amphibian as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforLandCategory202Amphibian::Frog, SubcategoriesforLandCategory202Amphibian::Toad, SubcategoriesforLandCategory202Amphibian::Salamander, SubcategoriesforLandCategory202Amphibian::Caecilian], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforLandCategory203Insect", bits: 8, default: 1, codes: &[("Beetle", 1), ("Mantis", 60), ("Cockroach", 70), ("ArmyAnt", 80), ("FireAnt", 81), ("Grasshopper", 90), ("Centipede", 100)], actual: || vec![SubcategoriesforLandCategory203Insect::Beetle as u64, SubcategoriesforLandCategory203Insect::Mantis as u64, SubcategoriesforLandCategory203Insect::Cockroach as u64, SubcategoriesforLandCategory203Insect::ArmyAnt as u64, SubcategoriesforLandCategory203Insect::FireAnt as u64, SubcategoriesforLandCategory203Insect::Grasshopper as u64, SubcategoriesforLandCategory203Insect::Centipede as u64], decode: |mut b| { let v = SubcategoriesforLandCategory203Insect::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforLandCategory203Insect as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforLandCategory203Insect::Beetle, SubcategoriesforLandCategory203Insect::Mantis, SubcategoriesforLandCategory203Insect::Cockroach, SubcategoriesforLandCategory203Insect::ArmyAnt, SubcategoriesforLandCategory203Insect::FireAnt, SubcategoriesforLandCategory203Insect::Grasshopper, SubcategoriesforLandCategory203Insect::Centipede], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforLandCategory204Arachnid", bits: 8, default: 1, codes: &[("Spider", 1), ("Tick", 20), ("Scorpion", 30), ("Harvestmen", 40), ("Mite", 50)], actual: || vec![SubcategoriesforLandCategory204Arachnid::Spider as u64, SubcategoriesforLandCategory204Arachnid::Tick as u64, SubcategoriesforLandCategory204Arachnid::Scorpion as u64, SubcategoriesforLandCategory204Arachnid::Harvestmen as u64, SubcategoriesforLandCategory204Arachnid::Mite as u64], decode: |mut b| { let v = SubcategoriesforLandCategory204Arachnid::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforLandCategory204Arachnid as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforLandCategory204Arachnid::Spider, SubcategoriesforLandCategory204Arachnid::Tick, SubcategoriesforLandCategory204Arachnid::Scorpion, SubcategoriesforLandCategory204Arachnid::Harvestmen, SubcategoriesforLandCategory204Arachnid::Mite], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforLandCategory205Mollusk", bits: 8, default: 1, codes: &[("Snail", 1), ("Slug", 50)], actual: || vec![SubcategoriesforLandCategory205Mollusk::Snail as u64, SubcategoriesforLandCategory205Mollusk::Slug as u64], decode: |mut b| { let v = SubcategoriesforLandCategory205Mollusk::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforLandCategory205Mollusk as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforLandCategory205Mollusk::Snail, SubcategoriesforLandCategory205Mollusk::Slug], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforLandCategory206Marsupial", bits: 8, default: 1, codes: &[("BrownFourEyedOpossum", 1), ("BushyTailedOpossum", 2), ("TatesShrewOpossum", 90), ("GreaterBilby", 100), ("TasmanianDevil", 110), ("BrushTailedRockWallaby", 150), ("EasternWallaroo", 160), ("RedKangaroo", 170), ("QueenslandKoala", 200), ("SouthernHairyNosedWombat", 205), ("BrushtailPossum", 210), ("SugarGlider", 211)], actual: || vec![SubcategoriesforLandCategory206Marsupial::BrownFourEyedOpossum as u64, SubcategoriesforLandCategory206Marsupial::BushyTailedOpossum as u64, SubcategoriesforLandCategory206Marsupial::TatesShrewOpossum as u64, SubcategoriesforLandCategory206Marsupial::GreaterBilby as u64, SubcategoriesforLandCategory206Marsupial::TasmanianDevil as u64, SubcategoriesforLandCategory206Marsupial::BrushTailedRockWallaby as u64, SubcategoriesforLandCategory206Marsupial::EasternWallaroo as u64, SubcategoriesforLandCategory206Marsupial::RedKangaroo as u64, SubcategoriesforLandCategory206Marsupial::QueenslandKoala as u64, SubcategoriesforLandCategory206Marsupial::SouthernHairyNosedWombat as u64, SubcategoriesforLandCategory206Marsupial::BrushtailPossum as u64, SubcategoriesforLandCategory206Marsupial::SugarGlider as u64], decode: |mut b| { let v = SubcategoriesforLandCategory206Marsupial::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforLandCategory206Marsupial as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforLandCategory206Marsupial::BrownFourEyedOpossum, SubcategoriesforLandCategory206Marsupial::BushyTailedOpossum, SubcategoriesforLandCategory206Marsupial::TatesShrewOpossum, SubcategoriesforLandCategory206Marsupial::GreaterBilby, SubcategoriesforLandCategory206Marsupial::TasmanianDevil, SubcategoriesforLandCategory206Marsupial::BrushTailedRockWallaby, SubcategoriesforLandCategory206Marsupial::EasternWallaroo, SubcategoriesforLandCategory206Marsupial::RedKangaroo, SubcategoriesforLandCategory206Marsupial::QueenslandKoala, SubcategoriesforLandCategory206Marsupial::SouthernHairyNosedWombat, SubcategoriesforLandCategory206Marsupial::BrushtailPossum, SubcategoriesforLandCategory206Marsupial::SugarGlider], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforAirCategory200Bird", bits: 8, default: 1, codes: &[("Penguin", 1), ("Seagull", 2), ("Pelican", 3), ("Albatross", 4), ("Swan", 5), ("Cormorant", 6), ("Heron", 7), ("Crane", 8), ("Osprey", 9), ("Loon", 10), ("Stork", 11), ("Flamingo", 12), ("Duck", 13), ("Ostrich", 20), ("Emu", 21), ("Chicken", 22), ("BlackBird", 30), ("Starling", 31), ("Budgerigar", 32), ("CanadianGoose", 40), ("Crow", 41), ("Eagle", 50), ("Vulture", 55), ("Falcon", 60), ("Hawk", 65), ("Owl", 70), ("Kite", 80)], actual: || vec![SubcategoriesforAirCategory200Bird::Penguin as u64, SubcategoriesforAirCategory200Bird::Seagull as u64, SubcategoriesforAirCategory200Bird::Pelican as u64, SubcategoriesforAirCategory200Bird::Albatross as u64, SubcategoriesforAirCategory200Bird::Swan as u64, SubcategoriesforAirCategory200Bird::Cormorant as u64, SubcategoriesforAirCategory200Bird::Heron as u64, SubcategoriesforAirCategory200Bird::Crane as u64, SubcategoriesforAirCategory200Bird::Osprey as u64, SubcategoriesforAirCategory200Bird::Loon as u64, SubcategoriesforAirCategory200Bird::Stork as u64, SubcategoriesforAirCategory200Bird::Flamingo as u64, SubcategoriesforAirCategory200Bird::Duck as u64, SubcategoriesforAirCategory200Bird::Ostrich as u64, SubcategoriesforAirCategory200Bird::Emu as u64, SubcategoriesforAirCategory200Bird::Chicken as u64, SubcategoriesforAirCategory200Bird::BlackBird as u64, SubcategoriesforAirCategory200Bird::Starling as u64, SubcategoriesforAirCategory200Bird::Budgerigar as u64, SubcategoriesforAirCategory200Bird::CanadianGoose as u64, SubcategoriesforAirCategory200Bird::Crow as u64, SubcategoriesforAirCategory200Bird::Eagle as u64, SubcategoriesforAirCategory200Bird::Vulture as u64, SubcategoriesforAirCategory200Bird::Falcon as u64, SubcategoriesforAirCategory200Bird::Hawk as u64, SubcategoriesforAirCategory200Bird::Owl as u64, SubcategoriesforAirCategory200Bird::Kite as u64], decode: |mut b| { let v = SubcategoriesforAirCategory200Bird::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforAirCategory200Bird as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforAirCategory200Bird::Penguin, SubcategoriesforAirCategory200Bird::Seagull, SubcategoriesforAirCategory200Bird::Pelican, SubcategoriesforAirCategory200Bird::Albatross, SubcategoriesforAirCategory200Bird::Swan, SubcategoriesforAirCategory200Bird::Cormorant, SubcategoriesforAirCategory200Bird::Heron, SubcategoriesforAirCategory200Bird::Crane, SubcategoriesforAirCategory200Bird::Osprey, SubcategoriesforAirCategory200Bird::Loon, SubcategoriesforAirCategory200Bird::Stork, SubcategoriesforAirCategory200Bird::Flamingo, SubcategoriesforAirCategory200Bird::Duck, SubcategoriesforAirCategory200Bird::Ostrich, SubcategoriesforAirCategory200Bird::Emu, SubcategoriesforAirCategory200Bird::Chicken, SubcategoriesforAirCategory200Bird::BlackBird, SubcategoriesforAirCategory200Bird::Starling, SubcategoriesforAirCategory200Bird::Budgerigar, SubcategoriesforAirCategory200Bird::CanadianGoose, SubcategoriesforAirCategory200Bird::Crow, SubcategoriesforAirCategory200Bird::Eagle, SubcategoriesforAirCategory200Bird::Vulture, SubcategoriesforAirCategory200Bird::Falcon, SubcategoriesforAirCategory200Bird::Hawk, SubcategoriesforAirCategory200Bird::Owl, SubcategoriesforAirCategory200Bird::Kite], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforAirCategory201Insect", bits: 8, default: 1, codes: &[("Moth", 1), ("Butterfly", 2), ("Fly", 20), ("Mosquito", 30), ("Wasp", 40), ("Bee", 50), ("Beetle", 60), ("Dragonfly", 70), ("Locust", 80)], actual: || vec![SubcategoriesforAirCategory201Insect::Moth as u64, SubcategoriesforAirCategory201Insect::Butterfly as u64, SubcategoriesforAirCategory201Insect::Fly as u64, SubcategoriesforAirCategory201Insect::Mosquito as u64, SubcategoriesforAirCategory201Insect::Wasp as u64, SubcategoriesforAirCategory201Insect::Bee as u64, SubcategoriesforAirCategory201Insect::Beetle as u64, SubcategoriesforAirCategory201Insect::Dragonfly as u64, SubcategoriesforAirCategory201Insect::Locust as u64], decode: |mut b| { let v = SubcategoriesforAirCategory201Insect::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforAirCategory201Insect as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforAirCategory201Insect::Moth, SubcategoriesforAirCategory201Insect::Butterfly, SubcategoriesforAirCategory201Insect::Fly, SubcategoriesforAirCategory201Insect::Mosquito, SubcategoriesforAirCategory201Insect::Wasp, SubcategoriesforAirCategory201Insect::Bee, SubcategoriesforAirCategory201Insect::Beetle, SubcategoriesforAirCategory201Insect::Dragonfly, SubcategoriesforAirCategory201Insect::Locust], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforAirCategory202Mammal", bits: 8, default: 1, codes: &[("Bat", 1), ("FlyingSquirrel", 10), ("GlidingPossum", 20)], actual: || vec![SubcategoriesforAirCategory202Mammal::Bat as u64, SubcategoriesforAirCategory202Mammal::FlyingSquirrel as u64, SubcategoriesforAirCategory202Mammal::GlidingPossum as u64], decode: |mut b| { let v = SubcategoriesforAirCategory202Mammal::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforAirCategory202Mammal as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforAirCategory202Mammal::Bat, SubcategoriesforAirCategory202Mammal::FlyingSquirrel, SubcategoriesforAirCategory202Mammal::GlidingPossum], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforSubsurfaceCategory200Fish", bits: 8, default: 1, codes: &[("ForageFishSmallSchooling", 1), ("Herring", 2), ("Sardines", 3), ("Krill", 4), ("Squid", 5), ("MediumSchoolingFish", 30), ("Hake", 31), ("Cod", 32), ("Haddock", 33), ("Mackerel", 34), ("LargeSchoolingFish", 60), ("Tuna", 61), ("SmallShark", 90), ("DogfishShark", 91), ("MediumShark", 120), ("MakoShark", 121), ("HammerheadShark", 122), ("LargeShark", 150), ("GreatWhiteShark", 151), ("TigerShark", 152), ("BlueShark", 153), ("WhaleShark", 154), ("Skate", 180), ("Stingray", 181), ("Eel", 190), ("Marlin", 200), ("Swordfish", 201)], actual: || vec![SubcategoriesforSubsurfaceCategory200Fish::ForageFishSmallSchooling as u64, SubcategoriesforSubsurfaceCategory200Fish::Herring as u64, SubcategoriesforSubsurfaceCategory200Fish::Sardines as u64, SubcategoriesforSubsurfaceCategory200Fish::Krill as u64, SubcategoriesforSubsurfaceCategory200Fish::Squid as u64, SubcategoriesforSubsurfaceCategory200Fish::MediumSchoolingFish as u64, SubcategoriesforSubsurfaceCategory200Fish::Hake as u64, SubcategoriesforSubsurfaceCategory200Fish::Cod as u64, SubcategoriesforSubsurfaceCategory200Fish::Haddock as u64, SubcategoriesforSubsurfaceCategory200Fish::Mackerel as u64, SubcategoriesforSubsurfaceCategory200Fish::LargeSchoolingFish as u64, SubcategoriesforSubsurfaceCategory200Fish::Tuna as u64, SubcategoriesforSubsurfaceCategory200Fish::SmallShark as u64, SubcategoriesforSubsurfaceCategory200Fish::DogfishShark as u64, SubcategoriesforSubsurfaceCategory200Fish::MediumShark as u64, SubcategoriesforSubsurfaceCategory200Fish::MakoShark as u64, SubcategoriesforSubsurfaceCategory200Fish::HammerheadShark as u64, SubcategoriesforSubsurfaceCategory200Fish::LargeShark as u64, SubcategoriesforSubsurfaceCategory200Fish::GreatWhiteShark as u64, SubcategoriesforSubsurfaceCategory200Fish::TigerShark as u64, SubcategoriesforSubsurfaceCategory200Fish::BlueShark as u64, SubcategoriesforSubsurfaceCategory200Fish::WhaleShark as u64, SubcategoriesforSubsurfaceCategory200Fish::Skate as u64, SubcategoriesforSubsurfaceCategory200Fish::Stingray as u64, SubcategoriesforSubsurfaceCategory200Fish::Eel as u64, SubcategoriesforSubsurfaceCategory200Fish::Marlin as u64, SubcategoriesforSubsurfaceCategory200Fish::Swordfish as u64], decode: |mut b| { let v = SubcategoriesforSubsurfaceCategory200Fish::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforSubsurfaceCategory200Fish as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforSubsurfaceCategory200Fish::ForageFishSmallSchooling, SubcategoriesforSubsurfaceCategory200Fish::Herring, SubcategoriesforSubsurfaceCategory200Fish::Sardines, SubcategoriesforSubsurfaceCategory200Fish::Krill, SubcategoriesforSubsurfaceCategory200Fish::Squid, SubcategoriesforSubsurfaceCategory200Fish::MediumSchoolingFish, SubcategoriesforSubsurfaceCategory200Fish::Hake, SubcategoriesforSubsurfaceCategory200Fish::Cod, SubcategoriesforSubsurfaceCategory200Fish::Haddock, SubcategoriesforSubsurfaceCategory200Fish::Mackerel, SubcategoriesforSubsurfaceCategory200Fish::LargeSchoolingFish, SubcategoriesforSubsurfaceCategory200Fish::Tuna, SubcategoriesforSubsurfaceCategory200Fish::SmallShark, SubcategoriesforSubsurfaceCategory200Fish::DogfishShark, SubcategoriesforSubsurfaceCategory200Fish::MediumShark, SubcategoriesforSubsurfaceCategory200Fish::MakoShark, SubcategoriesforSubsurfaceCategory200Fish::HammerheadShark, SubcategoriesforSubsurfaceCategory200Fish::LargeShark, SubcategoriesforSubsurfaceCategory200Fish::GreatWhiteShark, SubcategoriesforSubsurfaceCategory200Fish::TigerShark, SubcategoriesforSubsurfaceCategory200Fish::BlueShark, SubcategoriesforSubsurfaceCategory200Fish::WhaleShark, SubcategoriesforSubsurfaceCategory200Fish::Skate, SubcategoriesforSubsurfaceCategory200Fish::Stingray, SubcategoriesforSubsurfaceCategory200Fish::Eel, SubcategoriesforSubsurfaceCategory200Fish::Marlin, SubcategoriesforSubsurfaceCategory200Fish::Swordfish], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforSubsurfaceCategory201Mammal", bits: 8, default: 1, codes: &[("Whale", 1), ("BeakedWhale", 2), ("BelugaWhale", 3), ("BlueWhale", 4), ("BottlenoseWhale", 5), ("NorthernBottlenoseWhale", 6), ("SouthernBottlenoseWhale", 7), ("BowheadWhale", 8), ("BrydesWhale", 9), ("DwarfSpermWhale", 10), ("FinbackWhale", 11), ("GrayWhale", 12), ("HumpbackWhale", 13), ("LongFinnedPilotWhale", 14), ("MinkeWhale", 15), ("NorthernMinkeWhale", 16), ("SouthernMinkeWhale", 17), ("NarwhalWhale", 18), ("OrcaWhale", 19), ("PygmySpermWhale", 20), ("RightWhale", 21), ("NorthAtlanticRightWhale", 22), ("NorthPacificRightWhale", 23), ("SouthernRightWhale", 24), ("SeiWhale", 25), ("ShortFinnedPilotWhale", 26), ("SpermWhale", 27), ("Dolphin", 50), ("BottlenoseDolphin", 51), ("BottlenoseIndoPacificDolphin", 52), ("BottlenoseBurrunanDolphin", 53), ("AtlanticSpottedDolphin", 54), ("AustralianSnubfinDolphin", 55), ("ChileanBlackDolphin", 56), ("ChineseWhiteDolphin", 57), ("ClymeneDolphin", 58), ("Porpoise", 100), ("HarbourPorpoise", 101), ("CalifornianPorpoise", 102), ("DallsPorpoise", 103), ("BurmeistersPorpoise", 104), ("Seal", 120), ("BeardedSeal", 121), ("HarborSeal", 122), ("FurSeal", 123), ("WeddellSeal", 124), ("ElephantSeal", 125), ("SeaLion", 130), ("AustralianSeaLion", 131), ("CaliforniaSeaLion", 132), ("Walrus", 140), ("AtlanticWalrus", 141), ("PacificWalrus", 142), ("Otter", 150), ("SeaOtter", 151), ("Manatee", 160), ("FloridaManatee", 161), ("Dugongs", 162), ("PolarBear", 200)], actual: || vec![SubcategoriesforSubsurfaceCategory201Mammal::Whale as u64, SubcategoriesforSubsurfaceCategory201Mammal::BeakedWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::BelugaWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::BlueWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::BottlenoseWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::NorthernBottlenoseWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::SouthernBottlenoseWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::BowheadWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::BrydesWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::DwarfSpermWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::FinbackWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::GrayWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::HumpbackWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::LongFinnedPilotWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::MinkeWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::NorthernMinkeWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::SouthernMinkeWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::NarwhalWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::OrcaWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::PygmySpermWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::RightWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::NorthAtlanticRightWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::NorthPacificRightWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::SouthernRightWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::SeiWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::ShortFinnedPilotWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::SpermWhale as u64, SubcategoriesforSubsurfaceCategory201Mammal::Dolphin as u64, SubcategoriesforSubsurfaceCategory201Mammal::BottlenoseDolphin as u64, SubcategoriesforSubsurfaceCategory201Mammal::BottlenoseIndoPacificDolphin as u64, SubcategoriesforSubsurfaceCategory201Mammal::BottlenoseBurrunanDolphin as u64, SubcategoriesforSubsurfaceCategory201Mammal::AtlanticSpottedDolphin as u64, SubcategoriesforSubsurfaceCategory201Mammal::AustralianSnubfinDolphin as u64, SubcategoriesforSubsurfaceCategory201Mammal::ChileanBlackDolphin as u64, SubcategoriesforSubsurfaceCategory201Mammal::ChineseWhiteDolphin as u64, SubcategoriesforSubsurfaceCategory201Mammal::ClymeneDolphin as u64, SubcategoriesforSubsurfaceCategory201Mammal::Porpoise as u64, SubcategoriesforSubsurfaceCategory201Mammal::HarbourPorpoise as u64, SubcategoriesforSubsurfaceCategory201Mammal::CalifornianPorpoise as u64, SubcategoriesforSubsurfaceCategory201Mammal::DallsPorpoise as u64, SubcategoriesforSubsurfaceCategory201Mammal::BurmeistersPorpoise as u64, SubcategoriesforSubsurfaceCategory201Mammal::Seal as u64, SubcategoriesforSubsurfaceCategory201Mammal::BeardedSeal as u64, SubcategoriesforSubsurfaceCategory201Mammal::HarborSeal as u64, SubcategoriesforSubsurfaceCategory201Mammal::FurSeal as u64, SubcategoriesforSubsurfaceCategory201Mammal::WeddellSeal as u64, SubcategoriesforSubsurfaceCategory201Mammal::ElephantSeal as u64, SubcategoriesforSubsurfaceCategory201Mammal::SeaLion as u64, SubcategoriesforSubsurfaceCategory201Mammal::AustralianSeaLion as u64, SubcategoriesforSubsurfaceCategory201Mammal::CaliforniaSeaLion as u64, SubcategoriesforSubsurfaceCategory201Mammal::Walrus as u64, SubcategoriesforSubsurfaceCategory201Mammal::AtlanticWalrus as u64, SubcategoriesforSubsurfaceCategory201Mammal::PacificWalrus as u64, SubcategoriesforSubsurfaceCategory201Mammal::Otter as u64, SubcategoriesforSubsurfaceCategory201Mammal::SeaOtter as u64, SubcategoriesforSubsurfaceCategory201Mammal::Manatee as u64, SubcategoriesforSubsurfaceCategory201Mammal::FloridaManatee as u64, SubcategoriesforSubsurfaceCategory201Mammal::Dugongs as u64, SubcategoriesforSubsurfaceCategory201Mammal::PolarBear as u64], decode: |mut b| { let v = SubcategoriesforSubsurfaceCategory201Mammal::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforSubsurfaceCategory201Mammal as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforSubsurfaceCategory201Mammal::Whale, SubcategoriesforSubsurfaceCategory201Mammal::BeakedWhale, SubcategoriesforSubsurfaceCategory201Mammal::BelugaWhale, SubcategoriesforSubsurfaceCategory201Mammal::BlueWhale, SubcategoriesforSubsurfaceCategory201Mammal::BottlenoseWhale, SubcategoriesforSubsurfaceCategory201Mammal::NorthernBottlenoseWhale, SubcategoriesforSubsurfaceCategory201Mammal::SouthernBottlenoseWhale, SubcategoriesforSubsurfaceCategory201Mammal::BowheadWhale, SubcategoriesforSubsurfaceCategory201Mammal::BrydesWhale, SubcategoriesforSubsurfaceCategory201Mammal::DwarfSpermWhale, SubcategoriesforSubsurfaceCategory201Mammal::FinbackWhale, SubcategoriesforSubsurfaceCategory201Mammal::GrayWhale, SubcategoriesforSubsurfaceCategory201Mammal::HumpbackWhale, SubcategoriesforSubsurfaceCategory201Mammal::LongFinnedPilotWhale, SubcategoriesforSubsurfaceCategory201Mammal::MinkeWhale, SubcategoriesforSubsurfaceCategory201Mammal::NorthernMinkeWhale, SubcategoriesforSubsurfaceCategory201Mammal::SouthernMinkeWhale, SubcategoriesforSubsurfaceCategory201Mammal::NarwhalWhale, SubcategoriesforSubsurfaceCategory201Mammal::OrcaWhale, SubcategoriesforSubsurfaceCategory201Mammal::PygmySpermWhale, SubcategoriesforSubsurfaceCategory201Mammal::RightWhale, SubcategoriesforSubsurfaceCategory201Mammal::NorthAtlanticRightWhale, SubcategoriesforSubsurfaceCategory201Mammal::NorthPacificRightWhale, SubcategoriesforSubsurfaceCategory201Mammal::SouthernRightWhale, SubcategoriesforSubsurfaceCategory201Mammal::SeiWhale, SubcategoriesforSubsurfaceCategory201Mammal::ShortFinnedPilotWhale, SubcategoriesforSubsurfaceCategory201Mammal::SpermWhale, SubcategoriesforSubsurfaceCategory201Mammal::Dolphin, SubcategoriesforSubsurfaceCategory201Mammal::BottlenoseDolphin, SubcategoriesforSubsurfaceCategory201Mammal::BottlenoseIndoPacificDolphin, SubcategoriesforSubsurfaceCategory201Mammal::BottlenoseBurrunanDolphin, SubcategoriesforSubsurfaceCategory201Mammal::AtlanticSpottedDolphin, SubcategoriesforSubsurfaceCategory201Mammal::AustralianSnubfinDolphin, SubcategoriesforSubsurfaceCategory201Mammal::ChileanBlackDolphin, SubcategoriesforSubsurfaceCategory201Mammal::ChineseWhiteDolphin, SubcategoriesforSubsurfaceCategory201Mammal::ClymeneDolphin, SubcategoriesforSubsurfaceCategory201Mammal::Porpoise, SubcategoriesforSubsurfaceCategory201Mammal::HarbourPorpoise, SubcategoriesforSubsurfaceCategory201Mammal::CalifornianPorpoise, SubcategoriesforSubsurfaceCategory201Mammal::DallsPorpoise, SubcategoriesforSubsurfaceCategory201Mammal::BurmeistersPorpoise, SubcategoriesforSubsurfaceCategory201Mammal::Seal, SubcategoriesforSubsurfaceCategory201Mammal::BeardedSeal, SubcategoriesforSubsurfaceCategory201Mammal::HarborSeal, SubcategoriesforSubsurfaceCategory201Mammal::FurSeal, SubcategoriesforSubsurfaceCategory201Mammal::WeddellSeal, SubcategoriesforSubsurfaceCategory201Mammal::ElephantSeal, SubcategoriesforSubsurfaceCategory201Mammal::SeaLion, SubcategoriesforSubsurfaceCategory201Mammal::AustralianSeaLion, SubcategoriesforSubsurfaceCategory201Mammal::CaliforniaSeaLion, SubcategoriesforSubsurfaceCategory201Mammal::Walrus, SubcategoriesforSubsurfaceCategory201Mammal::AtlanticWalrus, SubcategoriesforSubsurfaceCategory201Mammal::PacificWalrus, SubcategoriesforSubsurfaceCategory201Mammal::Otter, SubcategoriesforSubsurfaceCategory201Mammal::SeaOtter, SubcategoriesforSubsurfaceCategory201Mammal::Manatee, SubcategoriesforSubsurfaceCategory201Mammal::FloridaManatee, SubcategoriesforSubsurfaceCategory201Mammal::Dugongs, SubcategoriesforSubsurfaceCategory201Mammal::PolarBear], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforSubsurfaceCategory202Mollusk", bits: 8, default: 1, codes: &[("Snail", 1), ("Slug", 10), ("Octopus", 20), ("Squid", 30), ("Cuttlefish", 40), ("Clam", 50), ("Muscle", 60), ("Oyster", 70), ("Scallop", 80)], actual: || vec![SubcategoriesforSubsurfaceCategory202Mollusk::Snail as u64, SubcategoriesforSubsurfaceCategory202Mollusk::Slug as u64, SubcategoriesforSubsurfaceCategory202Mollusk::Octopus as u64, SubcategoriesforSubsurfaceCategory202Mollusk::Squid as u64, SubcategoriesforSubsurfaceCategory202Mollusk::Cuttlefish as u64, SubcategoriesforSubsurfaceCategory202Mollusk::Clam as u64, SubcategoriesforSubsurfaceCategory202Mollusk::Muscle as u64, SubcategoriesforSubsurfaceCategory202Mollusk::Oyster as u64, SubcategoriesforSubsurfaceCategory202Mollusk::Scallop as u64], decode: |mut b| { let v = SubcategoriesforSubsurfaceCategory202Mollusk::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforSubsurfaceCategory202Mollusk as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforSubsurfaceCategory202Mollusk::Snail, SubcategoriesforSubsurfaceCategory202Mollusk::Slug, SubcategoriesforSubsurfaceCategory202Mollusk::Octopus, SubcategoriesforSubsurfaceCategory202Mollusk::Squid, SubcategoriesforSubsurfaceCategory202Mollusk::Cuttlefish, SubcategoriesforSubsurfaceCategory202Mollusk::Clam, SubcategoriesforSubsurfaceCategory202Mollusk::Muscle, SubcategoriesforSubsurfaceCategory202Mollusk::Oyster, SubcategoriesforSubsurfaceCategory202Mollusk::Scallop], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforSubsurfaceCategory203Crustacean", bits: 8, default: 1, codes: &[("Shrimp", 1), ("SnappingShrimp", 2), ("Crayfish", 10), ("Lobster", 20), ("Crab", 30)], actual: || vec![SubcategoriesforSubsurfaceCategory203Crustacean::Shrimp as u64, SubcategoriesforSubsurfaceCategory203Crustacean::SnappingShrimp as u64, SubcategoriesforSubsurfaceCategory203Crustacean::Crayfish as u64, SubcategoriesforSubsurfaceCategory203Crustacean::Lobster as u64, SubcategoriesforSubsurfaceCategory203Crustacean::Crab as u64], decode: |mut b| { let v = SubcategoriesforSubsurfaceCategory203Crustacean::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforSubsurfaceCategory203Crustacean as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforSubsurfaceCategory203Crustacean::Shrimp, SubcategoriesforSubsurfaceCategory203Crustacean::SnappingShrimp, SubcategoriesforSubsurfaceCategory203Crustacean::Crayfish, SubcategoriesforSubsurfaceCategory203Crustacean::Lobster, SubcategoriesforSubsurfaceCategory203Crustacean::Crab], |v| v as u64), scan: None },
  EnumRow { name: "SubcategoriesforSubsurfaceCategory204Insect", bits: 8, default: 1, codes: &[("SeaSkater", 1), ("WaterBeetle", 2)], actual: || vec![SubcategoriesforSubsurfaceCategory204Insect::SeaSkater as u64, SubcategoriesforSubsurfaceCategory204Insect::WaterBeetle as u64], decode: |mut b| { let v = SubcategoriesforSubsurfaceCategory204Insect::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SubcategoriesforSubsurfaceCategory204Insect as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SubcategoriesforSubsurfaceCategory204Insect::SeaSkater, SubcategoriesforSubsurfaceCategory204Insect::WaterBeetle], |v| v as u64), scan: None },
  EnumRow { name: "AnimalLifeformGroupSizeRangeEnumerationforallDomains", bits: 8, default: 201, codes: &[("Numberofanimalsrangefrom201to249", 201), ("Numberofanimalsrangefrom250to299", 202), ("Numberofanimalsrangefrom300to399", 203), ("Numberofanimalsrangefrom400to499", 204), ("Numberofanimalsrangefrom500to999", 205), ("Numberofanimalsrangefrom1000to1499", 206), ("Numberofanimalsrangefrom1500to1999", 207), ("Numberofanimalsrangefrom2000to2999", 208), ("Numberofanimalsrangefrom3000to4999", 210), ("Numberofanimalsrangefrom5000to6999", 212), ("Numberofanimalsrangefrom7000to9999", 214), ("Numberofanimalsrangefrom10000to19999", 216), ("Numberofanimalsrangefrom20000to50000", 218), ("Numberofanimalsrangegreaterthan50000", 220)], actual: || vec![AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom201to249 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom250to299 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom300to399 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom400to499 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom500to999 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom1000to1499 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom1500to1999 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom2000to2999 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom3000to4999 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom5000to6999 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom7000to9999 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom10000to19999 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom20000to50000 as u64, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangegreaterthan50000 as u64], decode: |mut b| { let v = AnimalLifeformGroupSizeRangeEnumerationforallDomains::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AnimalLifeformGroupSizeRangeEnumerationforallDomains as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom201to249, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom250to299, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom300to399, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom400to499, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom500to999, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom1000to1499, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom1500to1999, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom2000to2999, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom3000to4999, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom5000to6999, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom7000to9999, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom10000to19999, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangefrom20000to50000, AnimalLifeformGroupSizeRangeEnumerationforallDomains::Numberofanimalsrangegreaterthan50000], |v| v as u64), scan: None },
  EnumRow { name: "SpecificDimensionEnumerationsforLandAreaSize", bits: 8, default: 222, codes: &[("SmallArea", 222), ("SmallAreaDense", 223), ("MediumArea", 224), ("MediumAreaDense", 225), ("LargeArea", 226), ("LargeAreaDense", 227)], actual: || vec![SpecificDimensionEnumerationsforLandAreaSize::SmallArea as u64, SpecificDimensionEnumerationsforLandAreaSize::SmallAreaDense as u64, SpecificDimensionEnumerationsforLandAreaSize::MediumArea as u64, SpecificDimensionEnumerationsforLandAreaSize::MediumAreaDense as u64, SpecificDimensionEnumerationsforLandAreaSize::LargeArea as u64, SpecificDimensionEnumerationsforLandAreaSize::LargeAreaDense as u64], decode: |mut b| { let v = SpecificDimensionEnumerationsforLandAreaSize::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SpecificDimensionEnumerationsforLandAreaSize as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SpecificDimensionEnumerationsforLandAreaSize::SmallArea, SpecificDimensionEnumerationsforLandAreaSize::SmallAreaDense, SpecificDimensionEnumerationsforLandAreaSize::MediumArea, SpecificDimensionEnumerationsforLandAreaSize::MediumAreaDense, SpecificDimensionEnumerationsforLandAreaSize::LargeArea, SpecificDimensionEnumerationsforLandAreaSize::LargeAreaDense], |v| v as u64), scan: None },
  EnumRow { name: "SpecificDimensionEnumerationsforAirAreaSize", bits: 8, default: 222, codes: &[("SmallFlockSwarm", 222), ("SmallFlockSwarmDense", 223), ("MediumFlockSwarm", 224), ("MediumFlockSwarmDense", 225), ("LargeFlockSwarm", 226), ("LargeFlockSwarmDense", 227)], actual: || vec![SpecificDimensionEnumerationsforAirAreaSize::SmallFlockSwarm as u64, SpecificDimensionEnumerationsforAirAreaSize::SmallFlockSwarmDense as u64, SpecificDimensionEnumerationsforAirAreaSize::MediumFlockSwarm as u64, SpecificDimensionEnumerationsforAirAreaSize::MediumFlockSwarmDense as u64, SpecificDimensionEnumerationsforAirAreaSize::LargeFlockSwarm as u64, SpecificDimensionEnumerationsforAirAreaSize::LargeFlockSwarmDense as u64], decode: |mut b| { let v = SpecificDimensionEnumerationsforAirAreaSize::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SpecificDimensionEnumerationsforAirAreaSize as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SpecificDimensionEnumerationsforAirAreaSize::SmallFlockSwarm, SpecificDimensionEnumerationsforAirAreaSize::SmallFlockSwarmDense, SpecificDimensionEnumerationsforAirAreaSize::MediumFlockSwarm, SpecificDimensionEnumerationsforAirAreaSize::MediumFlockSwarmDense, SpecificDimensionEnumerationsforAirAreaSize::LargeFlockSwarm, SpecificDimensionEnumerationsforAirAreaSize::LargeFlockSwarmDense], |v| v as u64), scan: None },
  EnumRow { name: "AddSpecificDimensionEnumerationsforSubsurfaceAreaSize", bits: 8, default: 222, codes: &[("SmallSchool", 222), ("SmallSchoolDense", 223), ("MediumSchool", 224), ("MediumSchoolDense", 225), ("LargeSchool", 226), ("LargeSchoolDense", 227)], actual: || vec![AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::SmallSchool as u64, AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::SmallSchoolDense as u64, AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::MediumSchool as u64, AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::MediumSchoolDense as u64, AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::LargeSchool as u64, AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::LargeSchoolDense as u64], decode: |mut b| { let v = AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AddSpecificDimensionEnumerationsforSubsurfaceAreaSize as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::SmallSchool, AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::SmallSchoolDense, AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::MediumSchool, AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::MediumSchoolDense, AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::LargeSchool, AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::LargeSchoolDense], |v| v as u64), scan: None },
  EnumRow { name: "AddVariantsforLandCategory200Mammal", bits: 8, default: 1, codes: &[("AnimalwithaMaleChildRider", 1), ("AnimalwithaFemaleChildRider", 2), ("AnimalwithanAdultMaleRider", 3), ("AnimalwithanAdultFemaleRider", 4), ("AnimalHarnessedtoaPlow", 5), ("AnimalHarnessedtoaCart", 6)], actual: || vec![AddVariantsforLandCategory200Mammal::AnimalwithaMaleChildRider as u64, AddVariantsforLandCategory200Mammal::AnimalwithaFemaleChildRider as u64, AddVariantsforLandCategory200Mammal::AnimalwithanAdultMaleRider as u64, AddVariantsforLandCategory200Mammal::AnimalwithanAdultFemaleRider as u64, AddVariantsforLandCategory200Mammal::AnimalHarnessedtoaPlow as u64, AddVariantsforLandCategory200Mammal::AnimalHarnessedtoaCart as u64], decode: |mut b| { let v = AddVariantsforLandCategory200Mammal::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AddVariantsforLandCategory200Mammal as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AddVariantsforLandCategory200Mammal::AnimalwithaMaleChildRider, AddVariantsforLandCategory200Mammal::AnimalwithaFemaleChildRider, AddVariantsforLandCategory200Mammal::AnimalwithanAdultMaleRider, AddVariantsforLandCategory200Mammal::AnimalwithanAdultFemaleRider, AddVariantsforLandCategory200Mammal::AnimalHarnessedtoaPlow, AddVariantsforLandCategory200Mammal::AnimalHarnessedtoaCart], |v| v as u64), scan: None },
  EnumRow { name: "VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids", bits: 8, default: 1, codes: &[("Black", 1), ("Green", 2), ("Spotted", 3), ("Red", 4), ("Brown", 5)], actual: || vec![VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::Black as u64, VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::Green as u64, VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::Spotted as u64, VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::Red as u64, VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::Brown as u64], decode: |mut b| { let v = VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::Black, VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::Green, VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::Spotted, VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::Red, VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::Brown], |v| v as u64), scan: None },
  EnumRow { name: "VariantsforAirCategory200Bird", bits: 8, default: 1, codes: &[("BirdwithFish", 1), ("VPatternFlockShape", 2), ("CircularFlockShape", 3), ("IrregularFlockShape", 4)], actual: || vec![VariantsforAirCategory200Bird::BirdwithFish as u64, VariantsforAirCategory200Bird::VPatternFlockShape as u64, VariantsforAirCategory200Bird::CircularFlockShape as u64, VariantsforAirCategory200Bird::IrregularFlockShape as u64], decode: |mut b| { let v = VariantsforAirCategory200Bird::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <VariantsforAirCategory200Bird as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[VariantsforAirCategory200Bird::BirdwithFish, VariantsforAirCategory200Bird::VPatternFlockShape, VariantsforAirCategory200Bird::CircularFlockShape, VariantsforAirCategory200Bird::IrregularFlockShape], |v| v as u64), scan: None },
  EnumRow { name: "AddVariantsforAirCategory201Insect", bits: 8, default: 1, codes: &[("VerticalShapedInsectSwarm", 1), ("CircularShapedInsectSwarm", 2), ("IrregularShapedInsectSwarm", 3)], actual: || vec![AddVariantsforAirCategory201Insect::VerticalShapedInsectSwarm as u64, AddVariantsforAirCategory201Insect::CircularShapedInsectSwarm as u64, AddVariantsforAirCategory201Insect::IrregularShapedInsectSwarm as u64], decode: |mut b| { let v = AddVariantsforAirCategory201Insect::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AddVariantsforAirCategory201Insect as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AddVariantsforAirCategory201Insect::VerticalShapedInsectSwarm, AddVariantsforAirCategory201Insect::CircularShapedInsectSwarm, AddVariantsforAirCategory201Insect::IrregularShapedInsectSwarm], |v| v as u64), scan: None },
  EnumRow { name: "AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect", bits: 8, default: 1, codes: &[("Black", 1), ("Green", 2), ("Spotted", 3), ("Red", 4), ("Brown", 5), ("Blue", 6), ("Silver", 7), ("Grey", 8)], actual: || vec![AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Black as u64, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Green as u64, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Spotted as u64, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Red as u64, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Brown as u64, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Blue as u64, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Silver as u64, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Grey as u64], decode: |mut b| { let v = AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Black, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Green, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Spotted, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Red, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Brown, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Blue, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Silver, AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::Grey], |v| v as u64), scan: None },
  EnumRow { name: "VariantsforSubsurfaceCategory201Mammal", bits: 8, default: 1, codes: &[("Singing", 1), ("Spouting", 2)], actual: || vec![VariantsforSubsurfaceCategory201Mammal::Singing as u64, VariantsforSubsurfaceCategory201Mammal::Spouting as u64], decode: |mut b| { let v = VariantsforSubsurfaceCategory201Mammal::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <VariantsforSubsurfaceCategory201Mammal as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[VariantsforSubsurfaceCategory201Mammal::Singing, VariantsforSubsurfaceCategory201Mammal::Spouting], |v| v as u64), scan: None },
  EnumRow { name: "UAStateChangeUpdateIndicator", bits: 8, default: 0, codes: &[("StateUpdate", 0), ("ChangedDataUpdate", 1)], actual: || vec![UAStateChangeUpdateIndicator::StateUpdate as u64, UAStateChangeUpdateIndicator::ChangedDataUpdate as u64], decode: |mut b| { let v = UAStateChangeUpdateIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <UAStateChangeUpdateIndicator as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_UASTATECHANGEUPDATEINDICATOR[i], b), |mut b| <UAStateChangeUpdateIndicator as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_UASTATECHANGEUPDATEINDICATOR[i]))), pairs: || crate::core::pairs(&[UAStateChangeUpdateIndicator::StateUpdate, UAStateChangeUpdateIndicator::ChangedDataUpdate], |v| v as u64), scan: None },
  EnumRow { name: "UAAcousticSystemName", bits: 16, default: 0, codes: &[("Other", 0), ("ANBQQ5", 1), ("ANSSQ62", 2), ("ANSQS23", 3), ("ANSQS26", 4), ("ANSQS53", 5), ("ALFS", 6), ("LFA", 7), ("ANAQS901", 8), ("ANAQS902", 9)], actual: || vec![UAAcousticSystemName::Other as u64, UAAcousticSystemName::ANBQQ5 as u64, UAAcousticSystemName::ANSSQ62 as u64, UAAcousticSystemName::ANSQS23 as u64, UAAcousticSystemName::ANSQS26 as u64, UAAcousticSystemName::ANSQS53 as u64, UAAcousticSystemName::ALFS as u64, UAAcousticSystemName::LFA as u64, UAAcousticSystemName::ANAQS901 as u64, UAAcousticSystemName::ANAQS902 as u64], decode: |mut b| { let v = UAAcousticSystemName::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <UAAcousticSystemName as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_UAACOUSTICSYSTEMNAME[i], b), |mut b| <UAAcousticSystemName as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_UAACOUSTICSYSTEMNAME[i]))), pairs: || crate::core::pairs(&[UAAcousticSystemName::Other, UAAcousticSystemName::ANBQQ5, UAAcousticSystemName::ANSSQ62, UAAcousticSystemName::ANSQS23, UAAcousticSystemName::ANSQS26, UAAcousticSystemName::ANSQS53, UAAcousticSystemName::ALFS, UAAcousticSystemName::LFA, UAAcousticSystemName::ANAQS901, UAAcousticSystemName::ANAQS902], |v| v as u64), scan: None },
  EnumRow { name: "UAAcousticEmitterSystemFunction", bits: 8, default: 0, codes: &[("Other", 0), ("Platformsearchdetecttrack", 1), ("Navigation", 2), ("Minehunting", 3), ("Weaponsearchdetecttrackdetect", 4)], actual: || vec![UAAcousticEmitterSystemFunction::Other as u64, UAAcousticEmitterSystemFunction::Platformsearchdetecttrack as u64, UAAcousticEmitterSystemFunction::Navigation as u64, UAAcousticEmitterSystemFunction::Minehunting as u64, UAAcousticEmitterSystemFunction::Weaponsearchdetecttrackdetect as u64], decode: |mut b| { let v = UAAcousticEmitterSystemFunction::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <UAAcousticEmitterSystemFunction as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_UAACOUSTICEMITTERSYSTEMFUNCTION[i], b), |mut b| <UAAcousticEmitterSystemFunction as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_UAACOUSTICEMITTERSYSTEMFUNCTION[i]))), pairs: || crate::core::pairs(&[UAAcousticEmitterSystemFunction::Other, UAAcousticEmitterSystemFunction::Platformsearchdetecttrack, UAAcousticEmitterSystemFunction::Navigation, UAAcousticEmitterSystemFunction::Minehunting, UAAcousticEmitterSystemFunction::Weaponsearchdetecttrackdetect], |v| v as u64), scan: None },
  EnumRow { name: "UAActiveEmissionParameterIndex", bits: 16, default: 0, codes: &[("Other", 0)], actual: || vec![UAActiveEmissionParameterIndex::Other as u64], decode: |mut b| { let v = UAActiveEmissionParameterIndex::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <UAActiveEmissionParameterIndex as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[UAActiveEmissionParameterIndex::Other], |v| v as u64), scan: None },
  EnumRow { name: "UAScanPattern", bits: 16, default: 0, codes: &[("Scanpatternnotused", 0), ("Conical", 1), ("Helical", 2), ("Raster", 3), ("Sectorsearch", 4), ("Continuoussearch", 5)], actual: || vec![UAScanPattern::Scanpatternnotused as u64, UAScanPattern::Conical as u64, UAScanPattern::Helical as u64, UAScanPattern::Raster as u64, UAScanPattern::Sectorsearch as u64, UAScanPattern::Continuoussearch as u64], decode: |mut b| { let v = UAScanPattern::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <UAScanPattern as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[UAScanPattern::Scanpatternnotused, UAScanPattern::Conical, UAScanPattern::Helical, UAScanPattern::Raster, UAScanPattern::Sectorsearch, UAScanPattern::Continuoussearch], |v| v as u64), scan: None },
  EnumRow { name: "UAPassiveParameterIndex", bits: 16, default: 0, codes: &[("Other", 0)], actual: || vec![UAPassiveParameterIndex::Other as u64], decode: |mut b| { let v = UAPassiveParameterIndex::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <UAPassiveParameterIndex as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_UAPASSIVEPARAMETERINDEX[i], b), |mut b| <UAPassiveParameterIndex as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_UAPASSIVEPARAMETERINDEX[i]))), pairs: || crate::core::pairs(&[UAPassiveParameterIndex::Other], |v| v as u64), scan: None },
  EnumRow { name: "UAAdditionalPassiveActivityParameterIndex", bits: 16, default: 0, codes: &[("Other", 0)], actual: || vec![UAAdditionalPassiveActivityParameterIndex::Other as u64], decode: |mut b| { let v = UAAdditionalPassiveActivityParameterIndex::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <UAAdditionalPassiveActivityParameterIndex as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[UAAdditionalPassiveActivityParameterIndex::Other], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterMajorModulation", bits: 16, default: 0, codes: &[("NoStatement", 0), ("Amplitude", 1), ("AmplitudeandAngle", 2), ("Angle", 3), ("Combination", 4), ("Pulse", 5), ("Unmodulated", 6), ("CarrierPhaseShiftModulation", 7), ("SATCOM", 8)], actual: || vec![TransmitterMajorModulation::NoStatement as u64, TransmitterMajorModulation::Amplitude as u64, TransmitterMajorModulation::AmplitudeandAngle as u64, TransmitterMajorModulation::Angle as u64, TransmitterMajorModulation::Combination as u64, TransmitterMajorModulation::Pulse as u64, TransmitterMajorModulation::Unmodulated as u64, TransmitterMajorModulation::CarrierPhaseShiftModulation as u64, TransmitterMajorModulation::SATCOM as u64], decode: |mut b| { let v = TransmitterMajorModulation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterMajorModulation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmitterMajorModulation::NoStatement, TransmitterMajorModulation::Amplitude, TransmitterMajorModulation::AmplitudeandAngle, TransmitterMajorModulation::Angle, TransmitterMajorModulation::Combination, TransmitterMajorModulation::Pulse, TransmitterMajorModulation::Unmodulated, TransmitterMajorModulation::CarrierPhaseShiftModulation, TransmitterMajorModulation::SATCOM], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterDetailAmplitudeModulation", bits: 16, default: 0, codes: &[("Other", 0), ("AFSK", 1), ("AM", 2), ("CW", 3), ("DSB", 4), ("ISB", 5), ("LSB", 6), ("SSBFull", 7), ("SSBReduc", 8), ("USB", 9), ("VSB", 10)], actual: || vec![TransmitterDetailAmplitudeModulation::Other as u64, TransmitterDetailAmplitudeModulation::AFSK as u64, TransmitterDetailAmplitudeModulation::AM as u64, TransmitterDetailAmplitudeModulation::CW as u64, TransmitterDetailAmplitudeModulation::DSB as u64, TransmitterDetailAmplitudeModulation::ISB as u64, TransmitterDetailAmplitudeModulation::LSB as u64, TransmitterDetailAmplitudeModulation::SSBFull as u64, TransmitterDetailAmplitudeModulation::SSBReduc as u64, TransmitterDetailAmplitudeModulation::USB as u64, TransmitterDetailAmplitudeModulation::VSB as u64], decode: |mut b| { let v = TransmitterDetailAmplitudeModulation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterDetailAmplitudeModulation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmitterDetailAmplitudeModulation::Other, TransmitterDetailAmplitudeModulation::AFSK, TransmitterDetailAmplitudeModulation::AM, TransmitterDetailAmplitudeModulation::CW, TransmitterDetailAmplitudeModulation::DSB, TransmitterDetailAmplitudeModulation::ISB, TransmitterDetailAmplitudeModulation::LSB, TransmitterDetailAmplitudeModulation::SSBFull, TransmitterDetailAmplitudeModulation::SSBReduc, TransmitterDetailAmplitudeModulation::USB, TransmitterDetailAmplitudeModulation::VSB], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterDetailAmplitudeandAngleModulation", bits: 16, default: 0, codes: &[("Other", 0), ("AmplitudeandAngle", 1)], actual: || vec![TransmitterDetailAmplitudeandAngleModulation::Other as u64, TransmitterDetailAmplitudeandAngleModulation::AmplitudeandAngle as u64], decode: |mut b| { let v = TransmitterDetailAmplitudeandAngleModulation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterDetailAmplitudeandAngleModulation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmitterDetailAmplitudeandAngleModulation::Other, TransmitterDetailAmplitudeandAngleModulation::AmplitudeandAngle], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterDetailAngleModulation", bits: 16, default: 0, codes: &[("Other", 0), ("FM", 1), ("FSK", 2), ("PM", 3), ("MSK", 4)], actual: || vec![TransmitterDetailAngleModulation::Other as u64, TransmitterDetailAngleModulation::FM as u64, TransmitterDetailAngleModulation::FSK as u64, TransmitterDetailAngleModulation::PM as u64, TransmitterDetailAngleModulation::MSK as u64], decode: |mut b| { let v = TransmitterDetailAngleModulation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterDetailAngleModulation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmitterDetailAngleModulation::Other, TransmitterDetailAngleModulation::FM, TransmitterDetailAngleModulation::FSK, TransmitterDetailAngleModulation::PM, TransmitterDetailAngleModulation::MSK], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterDetailCombinationModulation", bits: 16, default: 0, codes: &[("Other", 0), ("AmplitudeAnglePulse", 1)], actual: || vec![TransmitterDetailCombinationModulation::Other as u64, TransmitterDetailCombinationModulation::AmplitudeAnglePulse as u64], decode: |mut b| { let v = TransmitterDetailCombinationModulation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterDetailCombinationModulation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmitterDetailCombinationModulation::Other, TransmitterDetailCombinationModulation::AmplitudeAnglePulse], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterDetailPulseModulation", bits: 16, default: 0, codes: &[("Other", 0), ("Pulse", 1), ("XBandTACANPulse", 2), ("YBandTACANPulse", 3)], actual: || vec![TransmitterDetailPulseModulation::Other as u64, TransmitterDetailPulseModulation::Pulse as u64, TransmitterDetailPulseModulation::XBandTACANPulse as u64, TransmitterDetailPulseModulation::YBandTACANPulse as u64], decode: |mut b| { let v = TransmitterDetailPulseModulation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterDetailPulseModulation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmitterDetailPulseModulation::Other, TransmitterDetailPulseModulation::Pulse, TransmitterDetailPulseModulation::XBandTACANPulse, TransmitterDetailPulseModulation::YBandTACANPulse], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterDetailUnmodulatedModulation", bits: 16, default: 0, codes: &[("Other", 0), ("ContinuousWaveemissionofanunmodulatedcarrier", 1)], actual: || vec![TransmitterDetailUnmodulatedModulation::Other as u64, TransmitterDetailUnmodulatedModulation::ContinuousWaveemissionofanunmodulatedcarrier as u64], decode: |mut b| { let v = TransmitterDetailUnmodulatedModulation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterDetailUnmodulatedModulation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmitterDetailUnmodulatedModulation::Other, TransmitterDetailUnmodulatedModulation::ContinuousWaveemissionofanunmodulatedcarrier], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterDetailCarrierPhaseShiftModulation", bits: 16, default: 0, codes: &[("Other", 0)], actual: || vec![TransmitterDetailCarrierPhaseShiftModulation::Other as u64], decode: |mut b| { let v = TransmitterDetailCarrierPhaseShiftModulation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterDetailCarrierPhaseShiftModulation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmitterDetailCarrierPhaseShiftModulation::Other], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterModulationTypeSystem", bits: 16, default: 0, codes: &[("Other", 0), ("GenericRadioorSimpleIntercom", 1), ("HAVEQUICKI", 2), ("HAVEQUICKII", 3), ("SATURN", 4), ("SINCGARS", 5), ("CCTTSINCGARS", 6), ("EPLRS", 7), ("JTIDSMIDS", 8), ("Link11", 9), ("Link11B", 10), ("LBandSATCOM", 11), ("EnhancedSINCGARS7_3", 12), ("NavigationAid", 13)], actual: || vec![TransmitterModulationTypeSystem::Other as u64, TransmitterModulationTypeSystem::GenericRadioorSimpleIntercom as u64, TransmitterModulationTypeSystem::HAVEQUICKI as u64, TransmitterModulationTypeSystem::HAVEQUICKII as u64, TransmitterModulationTypeSystem::SATURN as u64, TransmitterModulationTypeSystem::SINCGARS as u64, TransmitterModulationTypeSystem::CCTTSINCGARS as u64, TransmitterModulationTypeSystem::EPLRS as u64, TransmitterModulationTypeSystem::JTIDSMIDS as u64, TransmitterModulationTypeSystem::Link11 as u64, TransmitterModulationTypeSystem::Link11B as u64, TransmitterModulationTypeSystem::LBandSATCOM as u64, TransmitterModulationTypeSystem::EnhancedSINCGARS7_3 as u64, TransmitterModulationTypeSystem::NavigationAid as u64], decode: |mut b| { let v = TransmitterModulationTypeSystem::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterModulationTypeSystem as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmitterModulationTypeSystem::Other, TransmitterModulationTypeSystem::GenericRadioorSimpleIntercom, TransmitterModulationTypeSystem::HAVEQUICKI, TransmitterModulationTypeSystem::HAVEQUICKII, TransmitterModulationTypeSystem::SATURN, TransmitterModulationTypeSystem::SINCGARS, TransmitterModulationTypeSystem::CCTTSINCGARS, TransmitterModulationTypeSystem::EPLRS, TransmitterModulationTypeSystem::JTIDSMIDS, TransmitterModulationTypeSystem::Link11, TransmitterModulationTypeSystem::Link11B, TransmitterModulationTypeSystem::LBandSATCOM, TransmitterModulationTypeSystem::EnhancedSINCGARS7_3, TransmitterModulationTypeSystem::NavigationAid], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterTransmitState", bits: 8, default: 0, codes: &[("Off", 0), ("Onbutnottransmitting", 1), ("Onandtransmitting", 2)], actual: || vec![TransmitterTransmitState::Off as u64, TransmitterTransmitState::Onbutnottransmitting as u64, TransmitterTransmitState::Onandtransmitting as u64], decode: |mut b| { let v = TransmitterTransmitState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterTransmitState as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_TRANSMITTERTRANSMITSTATE[i], b), |mut b| <TransmitterTransmitState as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_TRANSMITTERTRANSMITSTATE[i]))), pairs: || crate::core::pairs(&[TransmitterTransmitState::Off, TransmitterTransmitState::Onbutnottransmitting, TransmitterTransmitState::Onandtransmitting], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterInputSource", bits: 8, default: 0, codes: &[("Other", 0), ("Pilot", 1), ("Copilot", 2), ("FirstOfficer", 3), ("Driver", 4), ("Loader", 5), ("Gunner", 6), ("Commander", 7), ("DigitalDataDevice", 8), ("Intercom", 9), ("AudioJammer", 10), ("DataJammer", 11), ("GPSJammer", 12), ("GPSMeaconer", 13), ("SATCOMUplinkJammer", 14)], actual: || vec![TransmitterInputSource::Other as u64, TransmitterInputSource::Pilot as u64, TransmitterInputSource::Copilot as u64, TransmitterInputSource::FirstOfficer as u64, TransmitterInputSource::Driver as u64, TransmitterInputSource::Loader as u64, TransmitterInputSource::Gunner as u64, TransmitterInputSource::Commander as u64, TransmitterInputSource::DigitalDataDevice as u64, TransmitterInputSource::Intercom as u64, TransmitterInputSource::AudioJammer as u64, TransmitterInputSource::DataJammer as u64, TransmitterInputSource::GPSJammer as u64, TransmitterInputSource::GPSMeaconer as u64, TransmitterInputSource::SATCOMUplinkJammer as u64], decode: |mut b| { let v = TransmitterInputSource::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterInputSource as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_TRANSMITTERINPUTSOURCE[i], b), |mut b| <TransmitterInputSource as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_TRANSMITTERINPUTSOURCE[i]))), pairs: || crate::core::pairs(&[TransmitterInputSource::Other, TransmitterInputSource::Pilot, TransmitterInputSource::Copilot, TransmitterInputSource::FirstOfficer, TransmitterInputSource::Driver, TransmitterInputSource::Loader, TransmitterInputSource::Gunner, TransmitterInputSource::Commander, TransmitterInputSource::DigitalDataDevice, TransmitterInputSource::Intercom, TransmitterInputSource::AudioJammer, TransmitterInputSource::DataJammer, TransmitterInputSource::GPSJammer, TransmitterInputSource::GPSMeaconer, TransmitterInputSource::SATCOMUplinkJammer], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterCryptoSystem", bits: 16, default: 0, codes: &[("NoEncryptionDevice", 0), ("KY28", 1), ("KY58", 2), ("NarrowSpectrumSecureVoice", 3), ("WideSpectrumSecureVoice", 4), ("SINCGARSICOM", 5), ("KY75", 6), ("KY100", 7), ("KY57", 8), ("KYV5", 9), ("Link11KG40AP", 10), ("Link11BKG40AS", 11), ("Link11KG40AR", 12), ("KGV135A", 13), ("TacticalSecureVoice", 14)], actual: || vec![TransmitterCryptoSystem::NoEncryptionDevice as u64, TransmitterCryptoSystem::KY28 as u64, TransmitterCryptoSystem::KY58 as u64, TransmitterCryptoSystem::NarrowSpectrumSecureVoice as u64, TransmitterCryptoSystem::WideSpectrumSecureVoice as u64, TransmitterCryptoSystem::SINCGARSICOM as u64, TransmitterCryptoSystem::KY75 as u64, TransmitterCryptoSystem::KY100 as u64, TransmitterCryptoSystem::KY57 as u64, TransmitterCryptoSystem::KYV5 as u64, TransmitterCryptoSystem::Link11KG40AP as u64, TransmitterCryptoSystem::Link11BKG40AS as u64, TransmitterCryptoSystem::Link11KG40AR as u64, TransmitterCryptoSystem::KGV135A as u64, TransmitterCryptoSystem::TacticalSecureVoice as u64], decode: |mut b| { let v = TransmitterCryptoSystem::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterCryptoSystem as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_TRANSMITTERCRYPTOSYSTEM[i], b), |mut b| <TransmitterCryptoSystem as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_TRANSMITTERCRYPTOSYSTEM[i]))), pairs: || crate::core::pairs(&[TransmitterCryptoSystem::NoEncryptionDevice, TransmitterCryptoSystem::KY28, TransmitterCryptoSystem::KY58, TransmitterCryptoSystem::NarrowSpectrumSecureVoice, TransmitterCryptoSystem::WideSpectrumSecureVoice, TransmitterCryptoSystem::SINCGARSICOM, TransmitterCryptoSystem::KY75, TransmitterCryptoSystem::KY100, TransmitterCryptoSystem::KY57, TransmitterCryptoSystem::KYV5, TransmitterCryptoSystem::Link11KG40AP, TransmitterCryptoSystem::Link11BKG40AS, TransmitterCryptoSystem::Link11KG40AR, TransmitterCryptoSystem::KGV135A, TransmitterCryptoSystem::TacticalSecureVoice], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterAntennaPatternType", bits: 16, default: 0, codes: &[("Isotropic", 0), ("Beam", 1), ("Sphericalharmonic", 2), ("TransmitterRadiationVolume", 4), ("BeamandTransmitterRadiationVolume", 5), ("Omnidirectional", 6)], actual: || vec![TransmitterAntennaPatternType::Isotropic as u64, TransmitterAntennaPatternType::Beam as u64, TransmitterAntennaPatternType::Sphericalharmonic as u64, TransmitterAntennaPatternType::TransmitterRadiationVolume as u64, TransmitterAntennaPatternType::BeamandTransmitterRadiationVolume as u64, TransmitterAntennaPatternType::Omnidirectional as u64], decode: |mut b| { let v = TransmitterAntennaPatternType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterAntennaPatternType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_TRANSMITTERANTENNAPATTERNTYPE[i], b), |mut b| <TransmitterAntennaPatternType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_TRANSMITTERANTENNAPATTERNTYPE[i]))), pairs: || crate::core::pairs(&[TransmitterAntennaPatternType::Isotropic, TransmitterAntennaPatternType::Beam, TransmitterAntennaPatternType::Sphericalharmonic, TransmitterAntennaPatternType::TransmitterRadiationVolume, TransmitterAntennaPatternType::BeamandTransmitterRadiationVolume, TransmitterAntennaPatternType::Omnidirectional], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterAntennaPatternReferenceSystem", bits: 8, default: 1, codes: &[("WorldCoordinates", 1), ("EntityCoordinates", 2)], actual: || vec![TransmitterAntennaPatternReferenceSystem::WorldCoordinates as u64, TransmitterAntennaPatternReferenceSystem::EntityCoordinates as u64], decode: |mut b| { let v = TransmitterAntennaPatternReferenceSystem::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterAntennaPatternReferenceSystem as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_TRANSMITTERANTENNAPATTERNREFERENCESYSTEM[i], b), |mut b| <TransmitterAntennaPatternReferenceSystem as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_TRANSMITTERANTENNAPATTERNREFERENCESYSTEM[i]))), pairs: || crate::core::pairs(&[TransmitterAntennaPatternReferenceSystem::WorldCoordinates, TransmitterAntennaPatternReferenceSystem::EntityCoordinates], |v| v as u64), scan: None },
  EnumRow { name: "CCTTSINCGARSStartofMessage", bits: 8, default: 0, codes: &[("Notstartofmessage", 0), ("StartofMessage", 1)], actual: || vec![CCTTSINCGARSStartofMessage::Notstartofmessage as u64, CCTTSINCGARSStartofMessage::StartofMessage as u64], decode: |mut b| { let v = CCTTSINCGARSStartofMessage::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <CCTTSINCGARSStartofMessage as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[CCTTSINCGARSStartofMessage::Notstartofmessage, CCTTSINCGARSStartofMessage::StartofMessage], |v| v as u64), scan: None },
  EnumRow { name: "CCTTSINCGARSClearChannel", bits: 8, default: 0, codes: &[("Notclearchannel", 0), ("Clearchannel", 1)], actual: || vec![CCTTSINCGARSClearChannel::Notclearchannel as u64, CCTTSINCGARSClearChannel::Clearchannel as u64], decode: |mut b| { let v = CCTTSINCGARSClearChannel::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <CCTTSINCGARSClearChannel as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[CCTTSINCGARSClearChannel::Notclearchannel, CCTTSINCGARSClearChannel::Clearchannel], |v| v as u64), scan: None },
  EnumRow { name: "TimeSlotAllocationLevel", bits: 8, default: 0, codes: &[("LowFidelityLevel0", 0), ("LowFidelityLevel1", 1), ("MediumFidelityLevel2", 2), ("MediumFidelityLevel3", 3), ("HighFidelityLevel4", 4)], actual: || vec![TimeSlotAllocationLevel::LowFidelityLevel0 as u64, TimeSlotAllocationLevel::LowFidelityLevel1 as u64, TimeSlotAllocationLevel::MediumFidelityLevel2 as u64, TimeSlotAllocationLevel::MediumFidelityLevel3 as u64, TimeSlotAllocationLevel::HighFidelityLevel4 as u64], decode: |mut b| { let v = TimeSlotAllocationLevel::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TimeSlotAllocationLevel as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TimeSlotAllocationLevel::LowFidelityLevel0, TimeSlotAllocationLevel::LowFidelityLevel1, TimeSlotAllocationLevel::MediumFidelityLevel2, TimeSlotAllocationLevel::MediumFidelityLevel3, TimeSlotAllocationLevel::HighFidelityLevel4], |v| v as u64), scan: None },
  EnumRow { name: "JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode", bits: 8, default: 1, codes: &[("NTR", 1), ("JTIDSUnitParticipant", 2)], actual: || vec![JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode::NTR as u64, JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode::JTIDSUnitParticipant as u64], decode: |mut b| { let v = JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode::NTR, JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode::JTIDSUnitParticipant], |v| v as u64), scan: None },
  EnumRow { name: "JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode", bits: 8, default: 0, codes: &[("None", 0), ("NetPositionReference", 1), ("PrimaryNavigationController", 2), ("SecondaryNavigationController", 3)], actual: || vec![JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode::None as u64, JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode::NetPositionReference as u64, JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode::PrimaryNavigationController as u64, JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode::SecondaryNavigationController as u64], decode: |mut b| { let v = JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode::None, JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode::NetPositionReference, JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode::PrimaryNavigationController, JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode::SecondaryNavigationController], |v| v as u64), scan: None },
  EnumRow { name: "JTIDSMIDSModulationParametersSynchronizationState", bits: 8, default: 0, codes: &[("NoStatement", 0), ("InitialNetEntry", 1), ("CoarseSynchronization", 2), ("FineSynchronization", 3), ("SynchronizationMaintenance", 4)], actual: || vec![JTIDSMIDSModulationParametersSynchronizationState::NoStatement as u64, JTIDSMIDSModulationParametersSynchronizationState::InitialNetEntry as u64, JTIDSMIDSModulationParametersSynchronizationState::CoarseSynchronization as u64, JTIDSMIDSModulationParametersSynchronizationState::FineSynchronization as u64, JTIDSMIDSModulationParametersSynchronizationState::SynchronizationMaintenance as u64], decode: |mut b| { let v = JTIDSMIDSModulationParametersSynchronizationState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <JTIDSMIDSModulationParametersSynchronizationState as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[JTIDSMIDSModulationParametersSynchronizationState::NoStatement, JTIDSMIDSModulationParametersSynchronizationState::InitialNetEntry, JTIDSMIDSModulationParametersSynchronizationState::CoarseSynchronization, JTIDSMIDSModulationParametersSynchronizationState::FineSynchronization, JTIDSMIDSModulationParametersSynchronizationState::SynchronizationMaintenance], |v| v as u64), scan: None },
  EnumRow { name: "MessageTypeIdentifier", bits: 8, default: 0, codes: &[("JTIDSHeaderMessages", 0), ("RTTAB", 1), ("RTTReply", 2), ("JTIDSVoiceCVSD", 3), ("JTIDSVoiceLPC10", 4), ("JTIDSVoiceLPC12", 5), ("JTIDSLET", 6), ("VMF", 7)], actual: || vec![MessageTypeIdentifier::JTIDSHeaderMessages as u64, MessageTypeIdentifier::RTTAB as u64, MessageTypeIdentifier::RTTReply as u64, MessageTypeIdentifier::JTIDSVoiceCVSD as u64, MessageTypeIdentifier::JTIDSVoiceLPC10 as u64, MessageTypeIdentifier::JTIDSVoiceLPC12 as u64, MessageTypeIdentifier::JTIDSLET as u64, MessageTypeIdentifier::VMF as u64], decode: |mut b| { let v = MessageTypeIdentifier::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MessageTypeIdentifier as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MessageTypeIdentifier::JTIDSHeaderMessages, MessageTypeIdentifier::RTTAB, MessageTypeIdentifier::RTTReply, MessageTypeIdentifier::JTIDSVoiceCVSD, MessageTypeIdentifier::JTIDSVoiceLPC10, MessageTypeIdentifier::JTIDSVoiceLPC12, MessageTypeIdentifier::JTIDSLET, MessageTypeIdentifier::VMF], |v| v as u64), scan: None },
  EnumRow { name: "SignalUserProtocolIdentificationNumber", bits: 32, default: 1, codes: &[("CCSIL", 1), ("A2ATDSINCGARSERF", 5), ("A2ATDCAC2", 6), ("BattleCommand", 20), ("AFIWCIADSTrackReport", 30), ("AFIWCIADSCommC2Message", 31), ("AFIWCIADSGroundControlInterceptorCommand", 32), ("AFIWCVoiceTextMessage", 35), ("ModSAFTextRadio", 177), ("CCTTSINCGARSERFLOCKOUT", 200), ("CCTTSINCGARSERFHOPSET", 201), ("CCTTSINCGARSOTAR", 202), ("CCTTSINCGARSDATA", 203), ("ModSAFFWAForwardAirController", 546), ("ModSAFThreatADAC3", 832), ("F16MTCAFAPDProtocol", 1000), ("F16MTCIDLProtocol", 1100), ("AutomaticIdentificationSystem", 1371), ("ModSAFArtilleryFireControl", 4570), ("AGTS", 5361), ("GC3", 6000), ("WNCPdata", 6010), ("Spokentextmessage", 6020), ("LongbowIDMmessage", 6661), ("ComancheIDMmessage", 6662), ("LongbowAirborneTACFIREMessage", 6663), ("LongbowGroundTACFIREMessage", 6664), ("LongbowAFAPDMessage", 6665), ("LongbowERFmessage", 6666), ("VMFIDM", 7000), ("CSARRadioSurvivorMessage", 7010), ("CSARRadioInterrogatorMessage", 7020), ("ImageFileTransferMessage", 7030), ("GeotagDataMessage", 7040), ("TacticalVideoRegenerationData", 7050)], actual: || vec![SignalUserProtocolIdentificationNumber::CCSIL as u64, SignalUserProtocolIdentificationNumber::A2ATDSINCGARSERF as u64, SignalUserProtocolIdentificationNumber::A2ATDCAC2 as u64, SignalUserProtocolIdentificationNumber::BattleCommand as u64, SignalUserProtocolIdentificationNumber::AFIWCIADSTrackReport as u64, SignalUserProtocolIdentificationNumber::AFIWCIADSCommC2Message as u64, SignalUserProtocolIdentificationNumber::AFIWCIADSGroundControlInterceptorCommand as u64, SignalUserProtocolIdentificationNumber::AFIWCVoiceTextMessage as u64, SignalUserProtocolIdentificationNumber::ModSAFTextRadio as u64, SignalUserProtocolIdentificationNumber::CCTTSINCGARSERFLOCKOUT as u64, SignalUserProtocolIdentificationNumber::CCTTSINCGARSERFHOPSET as u64, SignalUserProtocolIdentificationNumber::CCTTSINCGARSOTAR as u64, SignalUserProtocolIdentificationNumber::CCTTSINCGARSDATA as u64, SignalUserProtocolIdentificationNumber::ModSAFFWAForwardAirController as u64, SignalUserProtocolIdentificationNumber::ModSAFThreatADAC3 as u64, SignalUserProtocolIdentificationNumber::F16MTCAFAPDProtocol as u64, SignalUserProtocolIdentificationNumber::F16MTCIDLProtocol as u64, SignalUserProtocolIdentificationNumber::AutomaticIdentificationSystem as u64, SignalUserProtocolIdentificationNumber::ModSAFArtilleryFireControl as u64, SignalUserProtocolIdentificationNumber::AGTS as u64, SignalUserProtocolIdentificationNumber::GC3 as u64, SignalUserProtocolIdentificationNumber::WNCPdata as u64, SignalUserProtocolIdentificationNumber::Spokentextmessage as u64, SignalUserProtocolIdentificationNumber::LongbowIDMmessage as u64, SignalUserProtocolIdentificationNumber::ComancheIDMmessage as u64, SignalUserProtocolIdentificationNumber::LongbowAirborneTACFIREMessage as u64, SignalUserProtocolIdentificationNumber::LongbowGroundTACFIREMessage as u64, SignalUserProtocolIdentificationNumber::LongbowAFAPDMessage as u64, SignalUserProtocolIdentificationNumber::LongbowERFmessage as u64, SignalUserProtocolIdentificationNumber::VMFIDM as u64, SignalUserProtocolIdentificationNumber::CSARRadioSurvivorMessage as u64, SignalUserProtocolIdentificationNumber::CSARRadioInterrogatorMessage as u64, SignalUserProtocolIdentificationNumber::ImageFileTransferMessage as u64, SignalUserProtocolIdentificationNumber::GeotagDataMessage as u64, SignalUserProtocolIdentificationNumber::TacticalVideoRegenerationData as u64], decode: |mut b| { let v = SignalUserProtocolIdentificationNumber::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SignalUserProtocolIdentificationNumber as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SignalUserProtocolIdentificationNumber::CCSIL, SignalUserProtocolIdentificationNumber::A2ATDSINCGARSERF, SignalUserProtocolIdentificationNumber::A2ATDCAC2, SignalUserProtocolIdentificationNumber::BattleCommand, SignalUserProtocolIdentificationNumber::AFIWCIADSTrackReport, SignalUserProtocolIdentificationNumber::AFIWCIADSCommC2Message, SignalUserProtocolIdentificationNumber::AFIWCIADSGroundControlInterceptorCommand, SignalUserProtocolIdentificationNumber::AFIWCVoiceTextMessage, SignalUserProtocolIdentificationNumber::ModSAFTextRadio, SignalUserProtocolIdentificationNumber::CCTTSINCGARSERFLOCKOUT, SignalUserProtocolIdentificationNumber::CCTTSINCGARSERFHOPSET, SignalUserProtocolIdentificationNumber::CCTTSINCGARSOTAR, SignalUserProtocolIdentificationNumber::CCTTSINCGARSDATA, SignalUserProtocolIdentificationNumber::ModSAFFWAForwardAirController, SignalUserProtocolIdentificationNumber::ModSAFThreatADAC3, SignalUserProtocolIdentificationNumber::F16MTCAFAPDProtocol, SignalUserProtocolIdentificationNumber::F16MTCIDLProtocol, SignalUserProtocolIdentificationNumber::AutomaticIdentificationSystem, SignalUserProtocolIdentificationNumber::ModSAFArtilleryFireControl, SignalUserProtocolIdentificationNumber::AGTS, SignalUserProtocolIdentificationNumber::GC3, SignalUserProtocolIdentificationNumber::WNCPdata, SignalUserProtocolIdentificationNumber::Spokentextmessage, SignalUserProtocolIdentificationNumber::LongbowIDMmessage, SignalUserProtocolIdentificationNumber::ComancheIDMmessage, SignalUserProtocolIdentificationNumber::LongbowAirborneTACFIREMessage, SignalUserProtocolIdentificationNumber::LongbowGroundTACFIREMessage, SignalUserProtocolIdentificationNumber::LongbowAFAPDMessage, SignalUserProtocolIdentificationNumber::LongbowERFmessage, SignalUserProtocolIdentificationNumber::VMFIDM, SignalUserProtocolIdentificationNumber::CSARRadioSurvivorMessage, SignalUserProtocolIdentificationNumber::CSARRadioInterrogatorMessage, SignalUserProtocolIdentificationNumber::ImageFileTransferMessage, SignalUserProtocolIdentificationNumber::GeotagDataMessage, SignalUserProtocolIdentificationNumber::TacticalVideoRegenerationData], |v| v as u64), scan: Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| SignalUserProtocolIdentificationNumber::deserialize(&mut b) as u64)) },
  EnumRow { name: "SignalTDLType", bits: 16, default: 0, codes: &[("Other", 0), ("PADIL", 1), ("NATOLink1", 2), ("ATDL1", 3), ("Link11B", 4), ("SituationalAwarenessDataLink", 5), ("Link16LegacyFormatJTIDSTADILJ", 6), ("Link16LegacyFormatJTIDSFDLTADILJ", 7), ("Link11", 8), ("IJMS", 9), ("Link4A", 10), ("Link4C", 11), ("TIBS", 12), ("ATL", 13), ("ConstantSource", 14), ("AbbreviatedCommandandControl", 15), ("MILSTAR", 16), ("ATHS", 17), ("OTHGOLD", 18), ("TACELINT", 19), ("WeaponsDataLink", 20), ("AbbreviatedCommandandControl_", 21), ("EnhancedPositionLocationReportingSystem", 22), ("PositionLocationReportingSystem", 23), ("SINCGARS", 24), ("HAVEQUICKI", 25), ("HAVEQUICKII", 26), ("SATURN", 27), ("IntraFlightDataLink1", 28), ("IntraFlightDataLink2", 29), ("ImprovedDataModem", 30), ("AirForceApplicationProgramDevelopment", 31), ("CooperativeEngagementCapability", 32), ("ForwardAreaAirDefense", 33), ("GroundBasedDataLink", 34), ("IntraVehicularInfoSystem", 35), ("MarineTacticalSystem", 36), ("TacticalFireDirectionSystem", 37), ("IntegratedBroadcastService", 38), ("AirborneInformationTransfer", 39), ("AdvancedTacticalAirborneReconnaissanceSystemDataLink", 40), ("BattleGroupPassiveHorizonExtensionSystemDataLink", 41), ("CommonHighBandwidthDataLink", 42), ("GuardrailInteroperableDataLink", 43), ("GuardrailCommonSensorSystemOneDataLink", 44), ("GuardrailCommonSensorSystemTwoDataLink", 45), ("GuardrailCSS2MultiRoleDataLink", 46), ("GuardrailCSS2DirectAirtoSatelliteRelayDataLink", 47), ("LineofSight", 48), ("LightweightCDL", 49), ("L52M", 50), ("RivetReachRivetOwlDataLink", 51), ("SeniorSpan", 52), ("SeniorSpur", 53), ("SeniorStretch_", 54), ("SeniorYearInteroperableDataLink", 55), ("SpaceCDL", 56), ("TR1modeMISTAirborneDataLink", 57), ("KubandSATCOMDataLinkImplementation", 58), ("MissionEquipmentControlDatalink", 59), ("RadarDataTransmittingSetDataLink", 60), ("SurveillanceandControlDataLink", 61), ("TacticalUAVVideo", 62), ("UHFSATCOMDataLinkImplementation", 63), ("TacticalCommonDataLink", 64), ("LowLevelAirPictureInterface", 65), ("WeaponsDataLinkAGM130", 66), ("AutomaticIdentificationSystemAIS", 67), ("WeaponsDataLinkAIM120", 68), ("WeaponsDataLinkAIM9", 69), ("WeaponsDataLinkCAMM", 70), ("GC3", 99), ("Link16StandardizedFormat", 100), ("Link16EnhancedDataRate", 101), ("JTIDSMIDSNetDataLoad", 102), ("Link22", 103), ("AFIWCIADSCommunicationsLinks", 104), ("F22IntraFlightDataLink", 105), ("LBandSATCOM", 106), ("TSAFCommunicationsLink", 107), ("EnhancedSINCGARS7_3", 108), ("F35MultifunctionAdvancedDataLink", 109), ("CursoronTarget", 110), ("AllPurposeStructuredEurocontrolSurveillanceInformationExchange", 111), ("VariableMessageFormat", 112), ("Link16SurrogateforNonNATOTDL", 113), ("MQ19CBandLOSUplink", 114), ("MQ19CBandLOSDownlink", 115), ("MQ19KuBandSATCOMUplink", 116), ("MQ19KuBandSATCOMDownlink", 117), ("WeaponsDatalinkSDBII", 118), ("JTACSAUplink", 119), ("CommonInteractiveBroadcast", 120), ("JointRangeExtensionApplicationProtocolA", 121), ("JPALSDataLink", 125), ("OneSAFIADSCommunicationsLink", 126), ("TacticalTargetingNetworkTechnologyApplication", 127)], actual: || vec![SignalTDLType::Other as u64, SignalTDLType::PADIL as u64, SignalTDLType::NATOLink1 as u64, SignalTDLType::ATDL1 as u64, SignalTDLType::Link11B as u64, SignalTDLType::SituationalAwarenessDataLink as u64, SignalTDLType::Link16LegacyFormatJTIDSTADILJ as u64, SignalTDLType::Link16LegacyFormatJTIDSFDLTADILJ as u64, SignalTDLType::Link11 as u64, SignalTDLType::IJMS as u64, SignalTDLType::Link4A as u64, SignalTDLType::Link4C as u64, SignalTDLType::TIBS as u64, SignalTDLType::ATL as u64, SignalTDLType::ConstantSource as u64, SignalTDLType::AbbreviatedCommandandControl as u64, SignalTDLType::MILSTAR as u64, SignalTDLType::ATHS as u64, SignalTDLType::OTHGOLD as u64, SignalTDLType::TACELINT as u64, SignalTDLType::WeaponsDataLink as u64, SignalTDLType::AbbreviatedCommandandControl_ as u64, SignalTDLType::EnhancedPositionLocationReportingSystem as u64, SignalTDLType::PositionLocationReportingSystem as u64, SignalTDLType::SINCGARS as u64, SignalTDLType::HAVEQUICKI as u64, SignalTDLType::HAVEQUICKII as u64, SignalTDLType::SATURN as u64, SignalTDLType::IntraFlightDataLink1 as u64, SignalTDLType::IntraFlightDataLink2 as u64, SignalTDLType::ImprovedDataModem as u64, SignalTDLType::AirForceApplicationProgramDevelopment as u64, SignalTDLType::CooperativeEngagementCapability as u64, SignalTDLType::ForwardAreaAirDefense as u64, SignalTDLType::GroundBasedDataLink as u64, SignalTDLType::IntraVehicularInfoSystem as u64, SignalTDLType::MarineTacticalSystem as u64, SignalTDLType::TacticalFireDirectionSystem as u64, SignalTDLType::IntegratedBroadcastService as u64, SignalTDLType::AirborneInformationTransfer as u64, SignalTDLType::AdvancedTacticalAirborneReconnaissanceSystemDataLink as u64, SignalTDLType::BattleGroupPassiveHorizonExtensionSystemDataLink as u64, SignalTDLType::CommonHighBandwidthDataLink as u64, SignalTDLType::GuardrailInteroperableDataLink as u64, SignalTDLType::GuardrailCommonSensorSystemOneDataLink as u64, SignalTDLType::GuardrailCommonSensorSystemTwoDataLink as u64, SignalTDLType::GuardrailCSS2MultiRoleDataLink as u64, SignalTDLType::GuardrailCSS2DirectAirtoSatelliteRelayDataLink as u64, SignalTDLType::LineofSight as u64, SignalTDLType::LightweightCDL as u64, SignalTDLType::L52M as u64, SignalTDLType::RivetReachRivetOwlDataLink as u64, SignalTDLType::SeniorSpan as u64, SignalTDLType::SeniorSpur as u64, SignalTDLType::SeniorStretch_ as u64, SignalTDLType::SeniorYearInteroperableDataLink as u64, SignalTDLType::SpaceCDL as u64, SignalTDLType::TR1modeMISTAirborneDataLink as u64, SignalTDLType::KubandSATCOMDataLinkImplementation as u64, SignalTDLType::MissionEquipmentControlDatalink as u64, SignalTDLType::RadarDataTransmittingSetDataLink as u64, SignalTDLType::SurveillanceandControlDataLink as u64, SignalTDLType::TacticalUAVVideo as u64, SignalTDLType::UHFSATCOMDataLinkImplementation as u64, SignalTDLType::TacticalCommonDataLink as u64, SignalTDLType::LowLevelAirPictureInterface as u64, SignalTDLType::WeaponsDataLinkAGM130 as u64, SignalTDLType::AutomaticIdentificationSystemAIS as u64, SignalTDLType::WeaponsDataLinkAIM120 as u64, SignalTDLType::WeaponsDataLinkAIM9 as u64, SignalTDLType::WeaponsDataLinkCAMM as u64, SignalTDLType::GC3 as u64, SignalTDLType::Link16StandardizedFormat as u64, SignalTDLType::Link16EnhancedDataRate as u64, SignalTDLType::JTIDSMIDSNetDataLoad as u64, SignalTDLType::Link22 as u64, SignalTDLType::AFIWCIADSCommunicationsLinks as u64, SignalTDLType::F22IntraFlightDataLink as u64, SignalTDLType::LBandSATCOM as u64, SignalTDLType::TSAFCommunicationsLink as u64, SignalTDLType::EnhancedSINCGARS7_3 as u64, SignalTDLType::F35MultifunctionAdvancedDataLink as u64, SignalTDLType::CursoronTarget as u64, SignalTDLType::AllPurposeStructuredEurocontrolSurveillanceInformationExchange as u64, SignalTDLType::VariableMessageFormat as u64, SignalTDLType::Link16SurrogateforNonNATOTDL as u64, SignalTDLType::MQ19CBandLOSUplink as u64, SignalTDLType::MQ19CBandLOSDownlink as u64, SignalTDLType::MQ19KuBandSATCOMUplink as u64, SignalTDLType::MQ19KuBandSATCOMDownlink as u64, SignalTDLType::WeaponsDatalinkSDBII as u64, SignalTDLType::JTACSAUplink as u64, SignalTDLType::CommonInteractiveBroadcast as u64, SignalTDLType::JointRangeExtensionApplicationProtocolA as u64, SignalTDLType::JPALSDataLink as u64, SignalTDLType::OneSAFIADSCommunicationsLink as u64, SignalTDLType::TacticalTargetingNetworkTechnologyApplication as u64], decode: |mut b| { let v = SignalTDLType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SignalTDLType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_SIGNALTDLTYPE[i], b), |mut b| <SignalTDLType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_SIGNALTDLTYPE[i]))), pairs: || crate::core::pairs(&[SignalTDLType::Other, SignalTDLType::PADIL, SignalTDLType::NATOLink1, SignalTDLType::ATDL1, SignalTDLType::Link11B, SignalTDLType::SituationalAwarenessDataLink, SignalTDLType::Link16LegacyFormatJTIDSTADILJ, SignalTDLType::Link16LegacyFormatJTIDSFDLTADILJ, SignalTDLType::Link11, SignalTDLType::IJMS, SignalTDLType::Link4A, SignalTDLType::Link4C, SignalTDLType::TIBS, SignalTDLType::ATL, SignalTDLType::ConstantSource, SignalTDLType::AbbreviatedCommandandControl, SignalTDLType::MILSTAR, SignalTDLType::ATHS, SignalTDLType::OTHGOLD, SignalTDLType::TACELINT, SignalTDLType::WeaponsDataLink, SignalTDLType::AbbreviatedCommandandControl_, SignalTDLType::EnhancedPositionLocationReportingSystem, SignalTDLType::PositionLocationReportingSystem, SignalTDLType::SINCGARS, SignalTDLType::HAVEQUICKI, SignalTDLType::HAVEQUICKII, SignalTDLType::SATURN, SignalTDLType::IntraFlightDataLink1, SignalTDLType::IntraFlightDataLink2, SignalTDLType::ImprovedDataModem, SignalTDLType::AirForceApplicationProgramDevelopment, SignalTDLType::CooperativeEngagementCapability, SignalTDLType::ForwardAreaAirDefense, SignalTDLType::GroundBasedDataLink, SignalTDLType::IntraVehicularInfoSystem, SignalTDLType::MarineTacticalSystem, SignalTDLType::TacticalFireDirectionSystem, SignalTDLType::IntegratedBroadcastService, SignalTDLType::AirborneInformationTransfer, SignalTDLType::AdvancedTacticalAirborneReconnaissanceSystemDataLink, SignalTDLType::BattleGroupPassiveHorizonExtensionSystemDataLink, SignalTDLType::CommonHighBandwidthDataLink, SignalTDLType::GuardrailInteroperableDataLink, SignalTDLType::GuardrailCommonSensorSystemOneDataLink, SignalTDLType::GuardrailCommonSensorSystemTwoDataLink, SignalTDLType::GuardrailCSS2MultiRoleDataLink, SignalTDLType::GuardrailCSS2DirectAirtoSatelliteRelayDataLink, SignalTDLType::LineofSight, SignalTDLType::LightweightCDL, SignalTDLType::L52M, SignalTDLType::RivetReachRivetOwlDataLink, SignalTDLType::SeniorSpan, SignalTDLType::SeniorSpur, SignalTDLType::SeniorStretch_, SignalTDLType::SeniorYearInteroperableDataLink, SignalTDLType::SpaceCDL, SignalTDLType::TR1modeMISTAirborneDataLink, SignalTDLType::KubandSATCOMDataLinkImplementation, SignalTDLType::MissionEquipmentControlDatalink, SignalTDLType::RadarDataTransmittingSetDataLink, SignalTDLType::SurveillanceandControlDataLink, SignalTDLType::TacticalUAVVideo, SignalTDLType::UHFSATCOMDataLinkImplementation, SignalTDLType::TacticalCommonDataLink, SignalTDLType::LowLevelAirPictureInterface, SignalTDLType::WeaponsDataLinkAGM130, SignalTDLType::AutomaticIdentificationSystemAIS, SignalTDLType::WeaponsDataLinkAIM120, SignalTDLType::WeaponsDataLinkAIM9, SignalTDLType::WeaponsDataLinkCAMM, SignalTDLType::GC3, SignalTDLType::Link16StandardizedFormat, SignalTDLType::Link16EnhancedDataRate, SignalTDLType::JTIDSMIDSNetDataLoad, SignalTDLType::Link22, SignalTDLType::AFIWCIADSCommunicationsLinks, SignalTDLType::F22IntraFlightDataLink, SignalTDLType::LBandSATCOM, SignalTDLType::TSAFCommunicationsLink, SignalTDLType::EnhancedSINCGARS7_3, SignalTDLType::F35MultifunctionAdvancedDataLink, SignalTDLType::CursoronTarget, SignalTDLType::AllPurposeStructuredEurocontrolSurveillanceInformationExchange, SignalTDLType::VariableMessageFormat, SignalTDLType::Link16SurrogateforNonNATOTDL, SignalTDLType::MQ19CBandLOSUplink, SignalTDLType::MQ19CBandLOSDownlink, SignalTDLType::MQ19KuBandSATCOMUplink, SignalTDLType::MQ19KuBandSATCOMDownlink, SignalTDLType::WeaponsDatalinkSDBII, SignalTDLType::JTACSAUplink, SignalTDLType::CommonInteractiveBroadcast, SignalTDLType::JointRangeExtensionApplicationProtocolA, SignalTDLType::JPALSDataLink, SignalTDLType::OneSAFIADSCommunicationsLink, SignalTDLType::TacticalTargetingNetworkTechnologyApplication], |v| v as u64), scan: None },
  EnumRow { name: "ReceiverReceiverState", bits: 16, default: 0, codes: &[("Off", 0), ("Onbutnotreceiving", 1), ("Onandreceiving", 2)], actual: || vec![ReceiverReceiverState::Off as u64, ReceiverReceiverState::Onbutnotreceiving as u64, ReceiverReceiverState::Onandreceiving as u64], decode: |mut b| { let v = ReceiverReceiverState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ReceiverReceiverState as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_RECEIVERRECEIVERSTATE[i], b), |mut b| <ReceiverReceiverState as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_RECEIVERRECEIVERSTATE[i]))), pairs: || crate::core::pairs(&[ReceiverReceiverState::Off, ReceiverReceiverState::Onbutnotreceiving, ReceiverReceiverState::Onandreceiving], |v| v as u64), scan: None },
  EnumRow { name: "IntercomControlControlType", bits: 8, default: 0, codes: &[("Reserved", 0), ("Status", 1), ("RequestAcknowledgeRequired", 2), ("RequestNoAcknowledge", 3), ("AckRequestGranted", 4), ("NackRequestDenied", 5)], actual: || vec![IntercomControlControlType::Reserved as u64, IntercomControlControlType::Status as u64, IntercomControlControlType::RequestAcknowledgeRequired as u64, IntercomControlControlType::RequestNoAcknowledge as u64, IntercomControlControlType::AckRequestGranted as u64, IntercomControlControlType::NackRequestDenied as u64], decode: |mut b| { let v = IntercomControlControlType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IntercomControlControlType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_INTERCOMCONTROLCONTROLTYPE[i], b), |mut b| <IntercomControlControlType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_INTERCOMCONTROLCONTROLTYPE[i]))), pairs: || crate::core::pairs(&[IntercomControlControlType::Reserved, IntercomControlControlType::Status, IntercomControlControlType::RequestAcknowledgeRequired, IntercomControlControlType::RequestNoAcknowledge, IntercomControlControlType::AckRequestGranted, IntercomControlControlType::NackRequestDenied], |v| v as u64), scan: None },
  EnumRow { name: "IntercomControlCommunicationsType", bits: 8, default: 0, codes: &[("Reserved", 0), ("ConnectionFDX", 1), ("ConnectionHDXDestinationisReceiveOnly", 2), ("ConnectionHDXDestinationisTransmitOnly", 3), ("ConnectionHDX", 4)], actual: || vec![IntercomControlCommunicationsType::Reserved as u64, IntercomControlCommunicationsType::ConnectionFDX as u64, IntercomControlCommunicationsType::ConnectionHDXDestinationisReceiveOnly as u64, IntercomControlCommunicationsType::ConnectionHDXDestinationisTransmitOnly as u64, IntercomControlCommunicationsType::ConnectionHDX as u64], decode: |mut b| { let v = IntercomControlCommunicationsType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IntercomControlCommunicationsType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IntercomControlCommunicationsType::Reserved, IntercomControlCommunicationsType::ConnectionFDX, IntercomControlCommunicationsType::ConnectionHDXDestinationisReceiveOnly, IntercomControlCommunicationsType::ConnectionHDXDestinationisTransmitOnly, IntercomControlCommunicationsType::ConnectionHDX], |v| v as u64), scan: None },
  EnumRow { name: "IntercomControlCommand", bits: 8, default: 0, codes: &[("NoCommand", 0), ("Status", 1), ("Connect", 2), ("Disconnect", 3), ("Reset", 4), ("On", 5), ("Off", 6)], actual: || vec![IntercomControlCommand::NoCommand as u64, IntercomControlCommand::Status as u64, IntercomControlCommand::Connect as u64, IntercomControlCommand::Disconnect as u64, IntercomControlCommand::Reset as u64, IntercomControlCommand::On as u64, IntercomControlCommand::Off as u64], decode: |mut b| { let v = IntercomControlCommand::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IntercomControlCommand as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_INTERCOMCONTROLCOMMAND[i], b), |mut b| <IntercomControlCommand as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_INTERCOMCONTROLCOMMAND[i]))), pairs: || crate::core::pairs(&[IntercomControlCommand::NoCommand, IntercomControlCommand::Status, IntercomControlCommand::Connect, IntercomControlCommand::Disconnect, IntercomControlCommand::Reset, IntercomControlCommand::On, IntercomControlCommand::Off], |v| v as u64), scan: None },
  EnumRow { name: "IntercomControlTransmitLineState", bits: 8, default: 0, codes: &[("TransmitLineStatenotapplicable", 0), ("NotTransmitting", 1), ("Transmitting", 2)], actual: || vec![IntercomControlTransmitLineState::TransmitLineStatenotapplicable as u64, IntercomControlTransmitLineState::NotTransmitting as u64, IntercomControlTransmitLineState::Transmitting as u64], decode: |mut b| { let v = IntercomControlTransmitLineState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IntercomControlTransmitLineState as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_INTERCOMCONTROLTRANSMITLINESTATE[i], b), |mut b| <IntercomControlTransmitLineState as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_INTERCOMCONTROLTRANSMITLINESTATE[i]))), pairs: || crate::core::pairs(&[IntercomControlTransmitLineState::TransmitLineStatenotapplicable, IntercomControlTransmitLineState::NotTransmitting, IntercomControlTransmitLineState::Transmitting], |v| v as u64), scan: None },
  EnumRow { name: "IntercomControlDestinationLineStateCommand", bits: 8, default: 0, codes: &[("None", 0), ("SetLineStateTransmitting", 1), ("SetLineStateNotTransmitting", 2), ("ReturntoLocalLineStateControl", 3)], actual: || vec![IntercomControlDestinationLineStateCommand::None as u64, IntercomControlDestinationLineStateCommand::SetLineStateTransmitting as u64, IntercomControlDestinationLineStateCommand::SetLineStateNotTransmitting as u64, IntercomControlDestinationLineStateCommand::ReturntoLocalLineStateControl as u64], decode: |mut b| { let v = IntercomControlDestinationLineStateCommand::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IntercomControlDestinationLineStateCommand as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IntercomControlDestinationLineStateCommand::None, IntercomControlDestinationLineStateCommand::SetLineStateTransmitting, IntercomControlDestinationLineStateCommand::SetLineStateNotTransmitting, IntercomControlDestinationLineStateCommand::ReturntoLocalLineStateControl], |v| v as u64), scan: None },
  EnumRow { name: "IntercomControlRecordType", bits: 16, default: 1, codes: &[("SpecificDestinationrecord", 1), ("GroupDestinationrecord", 2), ("GroupAssignmentrecord", 3)], actual: || vec![IntercomControlRecordType::SpecificDestinationrecord as u64, IntercomControlRecordType::GroupDestinationrecord as u64, IntercomControlRecordType::GroupAssignmentrecord as u64], decode: |mut b| { let v = IntercomControlRecordType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IntercomControlRecordType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IntercomControlRecordType::SpecificDestinationrecord, IntercomControlRecordType::GroupDestinationrecord, IntercomControlRecordType::GroupAssignmentrecord], |v| v as u64), scan: None },
  EnumRow { name: "CollisionType", bits: 8, default: 0, codes: &[("Inelastic", 0), ("Elastic", 1), ("BoomNozzleHasClearedTheReceiversRefuelingReceptacle", 55)], actual: || vec![CollisionType::Inelastic as u64, CollisionType::Elastic as u64, CollisionType::BoomNozzleHasClearedTheReceiversRefuelingReceptacle as u64], decode: |mut b| { let v = CollisionType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <CollisionType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[CollisionType::Inelastic, CollisionType::Elastic, CollisionType::BoomNozzleHasClearedTheReceiversRefuelingReceptacle], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldSensorTypes", bits: 8, default: 0, codes: &[("Other", 0), ("Optical", 1), ("FLIR", 2), ("RADAR", 3), ("Magnetic", 4), ("Laser", 5), ("SONAR", 6), ("Physical", 7), ("Multispectral", 8)], actual: || vec![MinefieldSensorTypes::Other as u64, MinefieldSensorTypes::Optical as u64, MinefieldSensorTypes::FLIR as u64, MinefieldSensorTypes::RADAR as u64, MinefieldSensorTypes::Magnetic as u64, MinefieldSensorTypes::Laser as u64, MinefieldSensorTypes::SONAR as u64, MinefieldSensorTypes::Physical as u64, MinefieldSensorTypes::Multispectral as u64], decode: |mut b| { let v = MinefieldSensorTypes::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldSensorTypes as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_MINEFIELDSENSORTYPES[i], b), |mut b| <MinefieldSensorTypes as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_MINEFIELDSENSORTYPES[i]))), pairs: || crate::core::pairs(&[MinefieldSensorTypes::Other, MinefieldSensorTypes::Optical, MinefieldSensorTypes::FLIR, MinefieldSensorTypes::RADAR, MinefieldSensorTypes::Magnetic, MinefieldSensorTypes::Laser, MinefieldSensorTypes::SONAR, MinefieldSensorTypes::Physical, MinefieldSensorTypes::Multispectral], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldSensorTypesOptical", bits: 16, default: 0, codes: &[("UnaidedEyeActivelySearching", 0), ("UnaidedEyeNotActivelySearching", 1), ("Binoculars", 2), ("ImageIntensifier", 3), ("HMMWVoccupantActivelySearching", 4), ("HMMWVoccupantNotActivelySearching", 5), ("TruckoccupantActivelySearching", 6), ("TruckoccupantNotActivelySearching", 7), ("TrackedvehicleoccupantclosedhatchActivelySearching", 8), ("TrackedvehicleoccupantclosedhatchNotActivelySearching", 9), ("TrackedvehicleoccupantopenhatchActivelySearching", 10), ("TrackedvehicleoccupantopenhatchNotActivelySearching", 11)], actual: || vec![MinefieldSensorTypesOptical::UnaidedEyeActivelySearching as u64, MinefieldSensorTypesOptical::UnaidedEyeNotActivelySearching as u64, MinefieldSensorTypesOptical::Binoculars as u64, MinefieldSensorTypesOptical::ImageIntensifier as u64, MinefieldSensorTypesOptical::HMMWVoccupantActivelySearching as u64, MinefieldSensorTypesOptical::HMMWVoccupantNotActivelySearching as u64, MinefieldSensorTypesOptical::TruckoccupantActivelySearching as u64, MinefieldSensorTypesOptical::TruckoccupantNotActivelySearching as u64, MinefieldSensorTypesOptical::TrackedvehicleoccupantclosedhatchActivelySearching as u64, MinefieldSensorTypesOptical::TrackedvehicleoccupantclosedhatchNotActivelySearching as u64, MinefieldSensorTypesOptical::TrackedvehicleoccupantopenhatchActivelySearching as u64, MinefieldSensorTypesOptical::TrackedvehicleoccupantopenhatchNotActivelySearching as u64], decode: |mut b| { let v = MinefieldSensorTypesOptical::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldSensorTypesOptical as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldSensorTypesOptical::UnaidedEyeActivelySearching, MinefieldSensorTypesOptical::UnaidedEyeNotActivelySearching, MinefieldSensorTypesOptical::Binoculars, MinefieldSensorTypesOptical::ImageIntensifier, MinefieldSensorTypesOptical::HMMWVoccupantActivelySearching, MinefieldSensorTypesOptical::HMMWVoccupantNotActivelySearching, MinefieldSensorTypesOptical::TruckoccupantActivelySearching, MinefieldSensorTypesOptical::TruckoccupantNotActivelySearching, MinefieldSensorTypesOptical::TrackedvehicleoccupantclosedhatchActivelySearching, MinefieldSensorTypesOptical::TrackedvehicleoccupantclosedhatchNotActivelySearching, MinefieldSensorTypesOptical::TrackedvehicleoccupantopenhatchActivelySearching, MinefieldSensorTypesOptical::TrackedvehicleoccupantopenhatchNotActivelySearching], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldSensorTypesFLIR", bits: 16, default: 0, codes: &[("Generic35", 0), ("Generic812", 1), ("ASTAMIDSI", 2), ("ASTAMIDSII", 3), ("GSTAMIDS35", 4), ("GSTAMIDS812", 5), ("HSTAMIDS35", 6), ("HSTAMIDS812", 7), ("COBRA35", 8), ("COBRA812", 9)], actual: || vec![MinefieldSensorTypesFLIR::Generic35 as u64, MinefieldSensorTypesFLIR::Generic812 as u64, MinefieldSensorTypesFLIR::ASTAMIDSI as u64, MinefieldSensorTypesFLIR::ASTAMIDSII as u64, MinefieldSensorTypesFLIR::GSTAMIDS35 as u64, MinefieldSensorTypesFLIR::GSTAMIDS812 as u64, MinefieldSensorTypesFLIR::HSTAMIDS35 as u64, MinefieldSensorTypesFLIR::HSTAMIDS812 as u64, MinefieldSensorTypesFLIR::COBRA35 as u64, MinefieldSensorTypesFLIR::COBRA812 as u64], decode: |mut b| { let v = MinefieldSensorTypesFLIR::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldSensorTypesFLIR as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldSensorTypesFLIR::Generic35, MinefieldSensorTypesFLIR::Generic812, MinefieldSensorTypesFLIR::ASTAMIDSI, MinefieldSensorTypesFLIR::ASTAMIDSII, MinefieldSensorTypesFLIR::GSTAMIDS35, MinefieldSensorTypesFLIR::GSTAMIDS812, MinefieldSensorTypesFLIR::HSTAMIDS35, MinefieldSensorTypesFLIR::HSTAMIDS812, MinefieldSensorTypesFLIR::COBRA35, MinefieldSensorTypesFLIR::COBRA812], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldSensorTypesRADAR", bits: 16, default: 0, codes: &[("Generic", 0), ("GenericGPR", 1), ("GSTAMIDSI", 2), ("GSTAMIDSII", 3), ("HSTAMIDSI", 4), ("HSTAMIDSII", 5)], actual: || vec![MinefieldSensorTypesRADAR::Generic as u64, MinefieldSensorTypesRADAR::GenericGPR as u64, MinefieldSensorTypesRADAR::GSTAMIDSI as u64, MinefieldSensorTypesRADAR::GSTAMIDSII as u64, MinefieldSensorTypesRADAR::HSTAMIDSI as u64, MinefieldSensorTypesRADAR::HSTAMIDSII as u64], decode: |mut b| { let v = MinefieldSensorTypesRADAR::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldSensorTypesRADAR as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldSensorTypesRADAR::Generic, MinefieldSensorTypesRADAR::GenericGPR, MinefieldSensorTypesRADAR::GSTAMIDSI, MinefieldSensorTypesRADAR::GSTAMIDSII, MinefieldSensorTypesRADAR::HSTAMIDSI, MinefieldSensorTypesRADAR::HSTAMIDSII], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldSensorTypesMagnetic", bits: 16, default: 0, codes: &[("Generic", 0), ("ANPSS11", 1), ("ANPSS12", 2), ("GSTAMIDS", 3)], actual: || vec![MinefieldSensorTypesMagnetic::Generic as u64, MinefieldSensorTypesMagnetic::ANPSS11 as u64, MinefieldSensorTypesMagnetic::ANPSS12 as u64, MinefieldSensorTypesMagnetic::GSTAMIDS as u64], decode: |mut b| { let v = MinefieldSensorTypesMagnetic::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldSensorTypesMagnetic as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldSensorTypesMagnetic::Generic, MinefieldSensorTypesMagnetic::ANPSS11, MinefieldSensorTypesMagnetic::ANPSS12, MinefieldSensorTypesMagnetic::GSTAMIDS], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldSensorTypesLaser", bits: 16, default: 0, codes: &[("Generic", 0), ("ASTAMIDS", 1)], actual: || vec![MinefieldSensorTypesLaser::Generic as u64, MinefieldSensorTypesLaser::ASTAMIDS as u64], decode: |mut b| { let v = MinefieldSensorTypesLaser::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldSensorTypesLaser as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldSensorTypesLaser::Generic, MinefieldSensorTypesLaser::ASTAMIDS], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldSensorTypesSONAR", bits: 16, default: 0, codes: &[("Generic", 0)], actual: || vec![MinefieldSensorTypesSONAR::Generic as u64], decode: |mut b| { let v = MinefieldSensorTypesSONAR::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldSensorTypesSONAR as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldSensorTypesSONAR::Generic], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldSensorTypesPhysical", bits: 16, default: 0, codes: &[("GenericProbe", 0), ("ProbeMetalContent", 1), ("ProbeNoMetalContent", 2)], actual: || vec![MinefieldSensorTypesPhysical::GenericProbe as u64, MinefieldSensorTypesPhysical::ProbeMetalContent as u64, MinefieldSensorTypesPhysical::ProbeNoMetalContent as u64], decode: |mut b| { let v = MinefieldSensorTypesPhysical::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldSensorTypesPhysical as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldSensorTypesPhysical::GenericProbe, MinefieldSensorTypesPhysical::ProbeMetalContent, MinefieldSensorTypesPhysical::ProbeNoMetalContent], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldSensorTypesMultispectral", bits: 16, default: 0, codes: &[("Generic", 0)], actual: || vec![MinefieldSensorTypesMultispectral::Generic as u64], decode: |mut b| { let v = MinefieldSensorTypesMultispectral::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldSensorTypesMultispectral as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldSensorTypesMultispectral::Generic], |v| v as u64), scan: None },
  EnumRow { name: "AggregateStateAggregateState", bits: 8, default: 0, codes: &[("Other", 0), ("Aggregated", 1), ("Disaggregated", 2), ("Fullydisaggregated", 3), ("Pseudodisaggregated", 4), ("Partiallydisaggregated", 5)], actual: || vec![AggregateStateAggregateState::Other as u64, AggregateStateAggregateState::Aggregated as u64, AggregateStateAggregateState::Disaggregated as u64, AggregateStateAggregateState::Fullydisaggregated as u64, AggregateStateAggregateState::Pseudodisaggregated as u64, AggregateStateAggregateState::Partiallydisaggregated as u64], decode: |mut b| { let v = AggregateStateAggregateState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AggregateStateAggregateState as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_AGGREGATESTATEAGGREGATESTATE[i], b), |mut b| <AggregateStateAggregateState as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_AGGREGATESTATEAGGREGATESTATE[i]))), pairs: || crate::core::pairs(&[AggregateStateAggregateState::Other, AggregateStateAggregateState::Aggregated, AggregateStateAggregateState::Disaggregated, AggregateStateAggregateState::Fullydisaggregated, AggregateStateAggregateState::Pseudodisaggregated, AggregateStateAggregateState::Partiallydisaggregated], |v| v as u64), scan: None },
  EnumRow { name: "AggregateStateFormation", bits: 32, default: 0, codes: &[("Other", 0), ("Assembly", 1), ("Vee", 2), ("Wedge", 3), ("Line", 4), ("Column", 5)], actual: || vec![AggregateStateFormation::Other as u64, AggregateStateFormation::Assembly as u64, AggregateStateFormation::Vee as u64, AggregateStateFormation::Wedge as u64, AggregateStateFormation::Line as u64, AggregateStateFormation::Column as u64], decode: |mut b| { let v = AggregateStateFormation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AggregateStateFormation as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_AGGREGATESTATEFORMATION[i], b), |mut b| <AggregateStateFormation as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_AGGREGATESTATEFORMATION[i]))), pairs: || crate::core::pairs(&[AggregateStateFormation::Other, AggregateStateFormation::Assembly, AggregateStateFormation::Vee, AggregateStateFormation::Wedge, AggregateStateFormation::Line, AggregateStateFormation::Column], |v| v as u64), scan: Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| AggregateStateFormation::deserialize(&mut b) as u64)) },
  EnumRow { name: "AggregateStateAggregateKind", bits: 8, default: 0, codes: &[("Other", 0), ("MilitaryHierarchy", 1), ("CommonType", 2), ("CommonMission", 3), ("SimilarCapabilities", 4), ("CommonLocation", 5)], actual: || vec![AggregateStateAggregateKind::Other as u64, AggregateStateAggregateKind::MilitaryHierarchy as u64, AggregateStateAggregateKind::CommonType as u64, AggregateStateAggregateKind::CommonMission as u64, AggregateStateAggregateKind::SimilarCapabilities as u64, AggregateStateAggregateKind::CommonLocation as u64], decode: |mut b| { let v = AggregateStateAggregateKind::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AggregateStateAggregateKind as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AggregateStateAggregateKind::Other, AggregateStateAggregateKind::MilitaryHierarchy, AggregateStateAggregateKind::CommonType, AggregateStateAggregateKind::CommonMission, AggregateStateAggregateKind::SimilarCapabilities, AggregateStateAggregateKind::CommonLocation], |v| v as u64), scan: None },
  EnumRow { name: "AggregateStateSubcategory", bits: 8, default: 0, codes: &[("Other", 0), ("CavalryTroop", 1), ("Armor", 2), ("Infantry", 3), ("MechanizedInfantry", 4), ("Cavalry", 5), ("ArmoredCavalry", 6), ("Artillery", 7), ("SelfPropelledArtillery", 8), ("CloseAirSupport", 9), ("Engineer", 10), ("AirDefenseArtillery", 11), ("AntiTank", 12), ("ArmyAviationFixedwing", 13), ("ArmyAviationRotarywing", 14), ("ArmyAttackHelicopter", 15), ("AirCavalry", 16), ("ArmorHeavyTaskForce", 17), ("MotorizedRifle", 18), ("MechanizedHeavyTaskForce", 19), ("CommandPost", 20), ("CEWI", 21), ("Tankonly", 22)], actual: || vec![AggregateStateSubcategory::Other as u64, AggregateStateSubcategory::CavalryTroop as u64, AggregateStateSubcategory::Armor as u64, AggregateStateSubcategory::Infantry as u64, AggregateStateSubcategory::MechanizedInfantry as u64, AggregateStateSubcategory::Cavalry as u64, AggregateStateSubcategory::ArmoredCavalry as u64, AggregateStateSubcategory::Artillery as u64, AggregateStateSubcategory::SelfPropelledArtillery as u64, AggregateStateSubcategory::CloseAirSupport as u64, AggregateStateSubcategory::Engineer as u64, AggregateStateSubcategory::AirDefenseArtillery as u64, AggregateStateSubcategory::AntiTank as u64, AggregateStateSubcategory::ArmyAviationFixedwing as u64, AggregateStateSubcategory::ArmyAviationRotarywing as u64, AggregateStateSubcategory::ArmyAttackHelicopter as u64, AggregateStateSubcategory::AirCavalry as u64, AggregateStateSubcategory::ArmorHeavyTaskForce as u64, AggregateStateSubcategory::MotorizedRifle as u64, AggregateStateSubcategory::MechanizedHeavyTaskForce as u64, AggregateStateSubcategory::CommandPost as u64, AggregateStateSubcategory::CEWI as u64, AggregateStateSubcategory::Tankonly as u64], decode: |mut b| { let v = AggregateStateSubcategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AggregateStateSubcategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AggregateStateSubcategory::Other, AggregateStateSubcategory::CavalryTroop, AggregateStateSubcategory::Armor, AggregateStateSubcategory::Infantry, AggregateStateSubcategory::MechanizedInfantry, AggregateStateSubcategory::Cavalry, AggregateStateSubcategory::ArmoredCavalry, AggregateStateSubcategory::Artillery, AggregateStateSubcategory::SelfPropelledArtillery, AggregateStateSubcategory::CloseAirSupport, AggregateStateSubcategory::Engineer, AggregateStateSubcategory::AirDefenseArtillery, AggregateStateSubcategory::AntiTank, AggregateStateSubcategory::ArmyAviationFixedwing, AggregateStateSubcategory::ArmyAviationRotarywing, AggregateStateSubcategory::ArmyAttackHelicopter, AggregateStateSubcategory::AirCavalry, AggregateStateSubcategory::ArmorHeavyTaskForce, AggregateStateSubcategory::MotorizedRifle, AggregateStateSubcategory::MechanizedHeavyTaskForce, AggregateStateSubcategory::CommandPost, AggregateStateSubcategory::CEWI, AggregateStateSubcategory::Tankonly], |v| v as u64), scan: None },
  EnumRow { name: "AggregateStateSpecific", bits: 8, default: 0, codes: &[("Noheadquarters", 0), ("Yesaggregateunitcontainsaheadquarters", 1)], actual: || vec![AggregateStateSpecific::Noheadquarters as u64, AggregateStateSpecific::Yesaggregateunitcontainsaheadquarters as u64], decode: |mut b| { let v = AggregateStateSpecific::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AggregateStateSpecific as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AggregateStateSpecific::Noheadquarters, AggregateStateSpecific::Yesaggregateunitcontainsaheadquarters], |v| v as u64), scan: None },
  EnumRow { name: "IsPartOfNature", bits: 16, default: 0, codes: &[("Other", 0), ("Hostfireablemunition", 1), ("Munitioncarriedascargo", 2), ("Fuelcarriedascargo", 3), ("Gunmountattachedtohost", 4), ("Computergeneratedforcescarriedascargo", 5), ("Vehiclecarriedascargo", 6), ("Emittermountedonhost", 7), ("Mobilecommandandcontrolentitycarriedaboardhost", 8), ("Entitystationedatpositionwithrespecttohost", 9), ("Teammemberinformationwith", 10)], actual: || vec![IsPartOfNature::Other as u64, IsPartOfNature::Hostfireablemunition as u64, IsPartOfNature::Munitioncarriedascargo as u64, IsPartOfNature::Fuelcarriedascargo as u64, IsPartOfNature::Gunmountattachedtohost as u64, IsPartOfNature::Computergeneratedforcescarriedascargo as u64, IsPartOfNature::Vehiclecarriedascargo as u64, IsPartOfNature::Emittermountedonhost as u64, IsPartOfNature::Mobilecommandandcontrolentitycarriedaboardhost as u64, IsPartOfNature::Entitystationedatpositionwithrespecttohost as u64, IsPartOfNature::Teammemberinformationwith as u64], decode: |mut b| { let v = IsPartOfNature::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IsPartOfNature as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IsPartOfNature::Other, IsPartOfNature::Hostfireablemunition, IsPartOfNature::Munitioncarriedascargo, IsPartOfNature::Fuelcarriedascargo, IsPartOfNature::Gunmountattachedtohost, IsPartOfNature::Computergeneratedforcescarriedascargo, IsPartOfNature::Vehiclecarriedascargo, IsPartOfNature::Emittermountedonhost, IsPartOfNature::Mobilecommandandcontrolentitycarriedaboardhost, IsPartOfNature::Entitystationedatpositionwithrespecttohost, IsPartOfNature::Teammemberinformationwith], |v| v as u64), scan: None },
  EnumRow { name: "IsPartOfPosition", bits: 16, default: 0, codes: &[("Other", 0), ("Ontopof", 1), ("Insideof", 2)], actual: || vec![IsPartOfPosition::Other as u64, IsPartOfPosition::Ontopof as u64, IsPartOfPosition::Insideof as u64], decode: |mut b| { let v = IsPartOfPosition::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IsPartOfPosition as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IsPartOfPosition::Other, IsPartOfPosition::Ontopof, IsPartOfPosition::Insideof], |v| v as u64), scan: None },
  EnumRow { name: "IsPartOfStationName", bits: 16, default: 0, codes: &[("Other", 0), ("AircraftWingstation", 1), ("ShipsForwardGunmountStarboard", 2), ("ShipsForwardGunmountPort", 3), ("ShipsForwardGunmountCenterline", 4), ("ShipsAftGunmountStarboard", 5), ("ShipsAftGunmountPort", 6), ("ShipsAftGunmountCenterline", 7), ("ForwardTorpedoTube", 8), ("AftTorpedoTube", 9), ("BombBay", 10), ("CargoBay", 11), ("TruckBed", 12), ("TrailerBed", 13), ("WellDeck", 14), ("OnStationRangeandBearing", 15), ("OnStationxyz", 16), ("AirtoAirRefuelingBoom", 17), ("AerialRefuelingReceptacle", 18), ("PortSideRefuelingDrogue", 19), ("StarboardSideRefuelingDrogue", 20), ("CenterRefuelingDrogue", 21), ("AirRefuelingProbe", 22)], actual: || vec![IsPartOfStationName::Other as u64, IsPartOfStationName::AircraftWingstation as u64, IsPartOfStationName::ShipsForwardGunmountStarboard as u64, IsPartOfStationName::ShipsForwardGunmountPort as u64, IsPartOfStationName::ShipsForwardGunmountCenterline as u64, IsPartOfStationName::ShipsAftGunmountStarboard as u64, IsPartOfStationName::ShipsAftGunmountPort as u64, IsPartOfStationName::ShipsAftGunmountCenterline as u64, IsPartOfStationName::ForwardTorpedoTube as u64, IsPartOfStationName::AftTorpedoTube as u64, IsPartOfStationName::BombBay as u64, IsPartOfStationName::CargoBay as u64, IsPartOfStationName::TruckBed as u64, IsPartOfStationName::TrailerBed as u64, IsPartOfStationName::WellDeck as u64, IsPartOfStationName::OnStationRangeandBearing as u64, IsPartOfStationName::OnStationxyz as u64, IsPartOfStationName::AirtoAirRefuelingBoom as u64, IsPartOfStationName::AerialRefuelingReceptacle as u64, IsPartOfStationName::PortSideRefuelingDrogue as u64, IsPartOfStationName::StarboardSideRefuelingDrogue as u64, IsPartOfStationName::CenterRefuelingDrogue as u64, IsPartOfStationName::AirRefuelingProbe as u64], decode: |mut b| { let v = IsPartOfStationName::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IsPartOfStationName as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IsPartOfStationName::Other, IsPartOfStationName::AircraftWingstation, IsPartOfStationName::ShipsForwardGunmountStarboard, IsPartOfStationName::ShipsForwardGunmountPort, IsPartOfStationName::ShipsForwardGunmountCenterline, IsPartOfStationName::ShipsAftGunmountStarboard, IsPartOfStationName::ShipsAftGunmountPort, IsPartOfStationName::ShipsAftGunmountCenterline, IsPartOfStationName::ForwardTorpedoTube, IsPartOfStationName::AftTorpedoTube, IsPartOfStationName::BombBay, IsPartOfStationName::CargoBay, IsPartOfStationName::TruckBed, IsPartOfStationName::TrailerBed, IsPartOfStationName::WellDeck, IsPartOfStationName::OnStationRangeandBearing, IsPartOfStationName::OnStationxyz, IsPartOfStationName::AirtoAirRefuelingBoom, IsPartOfStationName::AerialRefuelingReceptacle, IsPartOfStationName::PortSideRefuelingDrogue, IsPartOfStationName::StarboardSideRefuelingDrogue, IsPartOfStationName::CenterRefuelingDrogue, IsPartOfStationName::AirRefuelingProbe], |v| v as u64), scan: None },
  EnumRow { name: "IsGroupOfGroupedEntityCategory", bits: 8, default: 0, codes: &[("Undefined", 0), ("BasicGroundCombatVehicle", 1), ("EnhancedGroundCombatVehicle", 2), ("BasicGroundCombatSoldier", 3), ("EnhancedGroundCombatSoldier", 4), ("BasicRotorWingAircraft", 5), ("EnhancedRotorWingAircraft", 6), ("BasicFixedWingAircraft", 7), ("EnhancedFixedWingAircraft", 8), ("GroundLogisticsVehicle", 9)], actual: || vec![IsGroupOfGroupedEntityCategory::Undefined as u64, IsGroupOfGroupedEntityCategory::BasicGroundCombatVehicle as u64, IsGroupOfGroupedEntityCategory::EnhancedGroundCombatVehicle as u64, IsGroupOfGroupedEntityCategory::BasicGroundCombatSoldier as u64, IsGroupOfGroupedEntityCategory::EnhancedGroundCombatSoldier as u64, IsGroupOfGroupedEntityCategory::BasicRotorWingAircraft as u64, IsGroupOfGroupedEntityCategory::EnhancedRotorWingAircraft as u64, IsGroupOfGroupedEntityCategory::BasicFixedWingAircraft as u64, IsGroupOfGroupedEntityCategory::EnhancedFixedWingAircraft as u64, IsGroupOfGroupedEntityCategory::GroundLogisticsVehicle as u64], decode: |mut b| { let v = IsGroupOfGroupedEntityCategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IsGroupOfGroupedEntityCategory as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_ISGROUPOFGROUPEDENTITYCATEGORY[i], b), |mut b| <IsGroupOfGroupedEntityCategory as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_ISGROUPOFGROUPEDENTITYCATEGORY[i]))), pairs: || crate::core::pairs(&[IsGroupOfGroupedEntityCategory::Undefined, IsGroupOfGroupedEntityCategory::BasicGroundCombatVehicle, IsGroupOfGroupedEntityCategory::EnhancedGroundCombatVehicle, IsGroupOfGroupedEntityCategory::BasicGroundCombatSoldier, IsGroupOfGroupedEntityCategory::EnhancedGroundCombatSoldier, IsGroupOfGroupedEntityCategory::BasicRotorWingAircraft, IsGroupOfGroupedEntityCategory::EnhancedRotorWingAircraft, IsGroupOfGroupedEntityCategory::BasicFixedWingAircraft, IsGroupOfGroupedEntityCategory::EnhancedFixedWingAircraft, IsGroupOfGroupedEntityCategory::GroundLogisticsVehicle], |v| v as u64), scan: None },
  EnumRow { name: "IsGroupOfRestStatus", bits: 8, default: 0, codes: &[("Notrested", 0), ("Hassleptanaverageof1hourperdayinthelastthreedays_", 1), ("Hassleptanaverageof2hoursperdayinthelastthreedays_", 2), ("Hassleptanaverageof3hoursperdayinthelastthreedays_", 3), ("Hassleptanaverageof4hoursperdayinthelastthreedays_", 4), ("Hassleptanaverageof5hoursperdayinthelastthreedays_", 5), ("Hassleptanaverageof6hoursperdayinthelastthreedays_", 6), ("Hassleptanaverageof7hoursperdayinthelastthreedays_", 7), ("Fullyrested", 8)], actual: || vec![IsGroupOfRestStatus::Notrested as u64, IsGroupOfRestStatus::Hassleptanaverageof1hourperdayinthelastthreedays_ as u64, IsGroupOfRestStatus::Hassleptanaverageof2hoursperdayinthelastthreedays_ as u64, IsGroupOfRestStatus::Hassleptanaverageof3hoursperdayinthelastthreedays_ as u64, IsGroupOfRestStatus::Hassleptanaverageof4hoursperdayinthelastthreedays_ as u64, IsGroupOfRestStatus::Hassleptanaverageof5hoursperdayinthelastthreedays_ as u64, IsGroupOfRestStatus::Hassleptanaverageof6hoursperdayinthelastthreedays_ as u64, IsGroupOfRestStatus::Hassleptanaverageof7hoursperdayinthelastthreedays_ as u64, IsGroupOfRestStatus::Fullyrested as u64], decode: |mut b| { let v = IsGroupOfRestStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IsGroupOfRestStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IsGroupOfRestStatus::Notrested, IsGroupOfRestStatus::Hassleptanaverageof1hourperdayinthelastthreedays_, IsGroupOfRestStatus::Hassleptanaverageof2hoursperdayinthelastthreedays_, IsGroupOfRestStatus::Hassleptanaverageof3hoursperdayinthelastthreedays_, IsGroupOfRestStatus::Hassleptanaverageof4hoursperdayinthelastthreedays_, IsGroupOfRestStatus::Hassleptanaverageof5hoursperdayinthelastthreedays_, IsGroupOfRestStatus::Hassleptanaverageof6hoursperdayinthelastthreedays_, IsGroupOfRestStatus::Hassleptanaverageof7hoursperdayinthelastthreedays_, IsGroupOfRestStatus::Fullyrested], |v| v as u64), scan: None },
  EnumRow { name: "TransferControlTransferType", bits: 8, default: 0, codes: &[("Other", 0), ("PushTransferEntity", 1), ("AutomaticPullTransferEntity", 2), ("PushTransferEnvironmentalProcess", 4), ("AutomaticPullTransferEnvironmentalProcess", 5), ("CancelTransfer", 7), ("ManualPullTransferEntity", 8), ("ManualPullTransferEnvironmentalProcess", 9), ("RemoveEntity", 10)], actual: || vec![TransferControlTransferType::Other as u64, TransferControlTransferType::PushTransferEntity as u64, TransferControlTransferType::AutomaticPullTransferEntity as u64, TransferControlTransferType::PushTransferEnvironmentalProcess as u64, TransferControlTransferType::AutomaticPullTransferEnvironmentalProcess as u64, TransferControlTransferType::CancelTransfer as u64, TransferControlTransferType::ManualPullTransferEntity as u64, TransferControlTransferType::ManualPullTransferEnvironmentalProcess as u64, TransferControlTransferType::RemoveEntity as u64], decode: |mut b| { let v = TransferControlTransferType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransferControlTransferType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_TRANSFERCONTROLTRANSFERTYPE[i], b), |mut b| <TransferControlTransferType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_TRANSFERCONTROLTRANSFERTYPE[i]))), pairs: || crate::core::pairs(&[TransferControlTransferType::Other, TransferControlTransferType::PushTransferEntity, TransferControlTransferType::AutomaticPullTransferEntity, TransferControlTransferType::PushTransferEnvironmentalProcess, TransferControlTransferType::AutomaticPullTransferEnvironmentalProcess, TransferControlTransferType::CancelTransfer, TransferControlTransferType::ManualPullTransferEntity, TransferControlTransferType::ManualPullTransferEnvironmentalProcess, TransferControlTransferType::RemoveEntity], |v| v as u64), scan: None },
  EnumRow { name: "ObjectKind", bits: 8, default: 0, codes: &[("Other", 0), ("Obstacle", 1), ("PreparedPosition", 2), ("CulturalFeature", 3), ("Passageway", 4), ("TacticalSmoke", 5), ("ObstacleMarker", 6), ("ObstacleBreach", 7), ("EnvironmentalObject", 8)], actual: || vec![ObjectKind::Other as u64, ObjectKind::Obstacle as u64, ObjectKind::PreparedPosition as u64, ObjectKind::CulturalFeature as u64, ObjectKind::Passageway as u64, ObjectKind::TacticalSmoke as u64, ObjectKind::ObstacleMarker as u64, ObjectKind::ObstacleBreach as u64, ObjectKind::EnvironmentalObject as u64], decode: |mut b| { let v = ObjectKind::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ObjectKind as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ObjectKind::Other, ObjectKind::Obstacle, ObjectKind::PreparedPosition, ObjectKind::CulturalFeature, ObjectKind::Passageway, ObjectKind::TacticalSmoke, ObjectKind::ObstacleMarker, ObjectKind::ObstacleBreach, ObjectKind::EnvironmentalObject], |v| v as u64), scan: None },
  EnumRow { name: "GriddedDataCoordinateSystem", bits: 16, default: 0, codes: &[("RightHandedCartesian", 0), ("LeftHandedCartesian", 1), ("LatitudeLongitudeHeight", 2), ("LatitudeLongitudeDepth", 3)], actual: || vec![GriddedDataCoordinateSystem::RightHandedCartesian as u64, GriddedDataCoordinateSystem::LeftHandedCartesian as u64, GriddedDataCoordinateSystem::LatitudeLongitudeHeight as u64, GriddedDataCoordinateSystem::LatitudeLongitudeDepth as u64], decode: |mut b| { let v = GriddedDataCoordinateSystem::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <GriddedDataCoordinateSystem as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_GRIDDEDDATACOORDINATESYSTEM[i], b), |mut b| <GriddedDataCoordinateSystem as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_GRIDDEDDATACOORDINATESYSTEM[i]))), pairs: || crate::core::pairs(&[GriddedDataCoordinateSystem::RightHandedCartesian, GriddedDataCoordinateSystem::LeftHandedCartesian, GriddedDataCoordinateSystem::LatitudeLongitudeHeight, GriddedDataCoordinateSystem::LatitudeLongitudeDepth], |v| v as u64), scan: None },
  EnumRow { name: "GriddedDataConstantGrid", bits: 8, default: 0, codes: &[("Constantgrid", 0), ("Updatedgrid", 1)], actual: || vec![GriddedDataConstantGrid::Constantgrid as u64, GriddedDataConstantGrid::Updatedgrid as u64], decode: |mut b| { let v = GriddedDataConstantGrid::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <GriddedDataConstantGrid as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_GRIDDEDDATACONSTANTGRID[i], b), |mut b| <GriddedDataConstantGrid as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_GRIDDEDDATACONSTANTGRID[i]))), pairs: || crate::core::pairs(&[GriddedDataConstantGrid::Constantgrid, GriddedDataConstantGrid::Updatedgrid], |v| v as u64), scan: None },
  EnumRow { name: "GriddedDataSampleType", bits: 8, default: 0, codes: &[("NotSpecified", 0)], actual: || vec![GriddedDataSampleType::NotSpecified as u64], decode: |mut b| { let v = GriddedDataSampleType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <GriddedDataSampleType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_GRIDDEDDATASAMPLETYPE[i], b), |mut b| <GriddedDataSampleType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_GRIDDEDDATASAMPLETYPE[i]))), pairs: || crate::core::pairs(&[GriddedDataSampleType::NotSpecified], |v| v as u64), scan: None },
  EnumRow { name: "GriddedDataDataRepresentation", bits: 8, default: 0, codes: &[("Type0", 0), ("Type1", 1), ("Type2", 2)], actual: || vec![GriddedDataDataRepresentation::Type0 as u64, GriddedDataDataRepresentation::Type1 as u64, GriddedDataDataRepresentation::Type2 as u64], decode: |mut b| { let v = GriddedDataDataRepresentation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <GriddedDataDataRepresentation as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_GRIDDEDDATADATAREPRESENTATION[i], b), |mut b| <GriddedDataDataRepresentation as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_GRIDDEDDATADATAREPRESENTATION[i]))), pairs: || crate::core::pairs(&[GriddedDataDataRepresentation::Type0, GriddedDataDataRepresentation::Type1, GriddedDataDataRepresentation::Type2], |v| v as u64), scan: None },
  EnumRow { name: "EnvironmentalProcessModelType", bits: 8, default: 0, codes: &[("NoStatement", 0)], actual: || vec![EnvironmentalProcessModelType::NoStatement as u64], decode: |mut b| { let v = EnvironmentalProcessModelType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EnvironmentalProcessModelType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EnvironmentalProcessModelType::NoStatement], |v| v as u64), scan: None },
  EnumRow { name: "EnvironmentalProcessRecordType", bits: 32, default: 256, codes: &[("COMBICState", 256), ("FlareState", 259), ("BoundingSphereRecord", 65536), ("UniformGeometryRecord", 327680), ("PointRecord1", 655360), ("LineRecord1", 786432), ("SphereRecord1", 851968), ("EllipsoidRecord1", 1048576), ("ConeRecord1", 3145728), ("RectangularVolumeRecord1", 5242880), ("RectangularVolumeRecord3", 83886080), ("PointRecord2", 167772160), ("LineRecord2", 201326592), ("SphereRecord2", 218103808), ("EllipsoidRecord2", 268435456), ("ConeRecord2", 805306368), ("RectangularVolumeRecord2", 1342177280), ("GaussianPlumeRecord", 1610612736), ("GaussianPuffRecord", 1879048192)], actual: || vec![EnvironmentalProcessRecordType::COMBICState as u64, EnvironmentalProcessRecordType::FlareState as u64, EnvironmentalProcessRecordType::BoundingSphereRecord as u64, EnvironmentalProcessRecordType::UniformGeometryRecord as u64, EnvironmentalProcessRecordType::PointRecord1 as u64, EnvironmentalProcessRecordType::LineRecord1 as u64, EnvironmentalProcessRecordType::SphereRecord1 as u64, EnvironmentalProcessRecordType::EllipsoidRecord1 as u64, EnvironmentalProcessRecordType::ConeRecord1 as u64, EnvironmentalProcessRecordType::RectangularVolumeRecord1 as u64, EnvironmentalProcessRecordType::RectangularVolumeRecord3 as u64, EnvironmentalProcessRecordType::PointRecord2 as u64, EnvironmentalProcessRecordType::LineRecord2 as u64, EnvironmentalProcessRecordType::SphereRecord2 as u64, EnvironmentalProcessRecordType::EllipsoidRecord2 as u64, EnvironmentalProcessRecordType::ConeRecord2 as u64, EnvironmentalProcessRecordType::RectangularVolumeRecord2 as u64, EnvironmentalProcessRecordType::GaussianPlumeRecord as u64, EnvironmentalProcessRecordType::GaussianPuffRecord as u64], decode: |mut b| { let v = EnvironmentalProcessRecordType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EnvironmentalProcessRecordType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EnvironmentalProcessRecordType::COMBICState, EnvironmentalProcessRecordType::FlareState, EnvironmentalProcessRecordType::BoundingSphereRecord, EnvironmentalProcessRecordType::UniformGeometryRecord, EnvironmentalProcessRecordType::PointRecord1, EnvironmentalProcessRecordType::LineRecord1, EnvironmentalProcessRecordType::SphereRecord1, EnvironmentalProcessRecordType::EllipsoidRecord1, EnvironmentalProcessRecordType::ConeRecord1, EnvironmentalProcessRecordType::RectangularVolumeRecord1, EnvironmentalProcessRecordType::RectangularVolumeRecord3, EnvironmentalProcessRecordType::PointRecord2, EnvironmentalProcessRecordType::LineRecord2, EnvironmentalProcessRecordType::SphereRecord2, EnvironmentalProcessRecordType::EllipsoidRecord2, EnvironmentalProcessRecordType::ConeRecord2, EnvironmentalProcessRecordType::RectangularVolumeRecord2, EnvironmentalProcessRecordType::GaussianPlumeRecord, EnvironmentalProcessRecordType::GaussianPuffRecord], |v| v as u64), scan: Some(|c, d, lo, hi| crate::checks::tables::scan(c, d, lo, hi, |mut b| EnvironmentalProcessRecordType::deserialize(&mut b) as u64)) },
  EnumRow { name: "SignalEncodingClass", bits: 8, default: 0, codes: &[("Encodedaudio", 0), ("RawBinaryData", 1), ("ApplicationSpecificData", 2), ("Databaseindex", 3)], actual: || vec![SignalEncodingClass::Encodedaudio as u64, SignalEncodingClass::RawBinaryData as u64, SignalEncodingClass::ApplicationSpecificData as u64, SignalEncodingClass::Databaseindex as u64], decode: |mut b| { let v = SignalEncodingClass::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SignalEncodingClass as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SignalEncodingClass::Encodedaudio, SignalEncodingClass::RawBinaryData, SignalEncodingClass::ApplicationSpecificData, SignalEncodingClass::Databaseindex], |v| v as u64), scan: None },
  EnumRow { name: "SignalEncodingType", bits: 8, default: 1, codes: &[("_8bitmulaw", 1), ("CVSD", 2), ("ADPCM", 3), ("_16bitLinearPCM2sComplementBigEndian", 4), ("_8bitLinearPCMUnsigned", 5), ("VQ", 6), ("GSMFullRate", 8), ("GSMHalfRate", 9), ("SpeexNarrowBand", 10), ("Opus", 11), ("LPC10", 12), ("_16bitLinearPCM2sComplementLittleEndian", 100)], actual: || vec![SignalEncodingType::_8bitmulaw as u64, SignalEncodingType::CVSD as u64, SignalEncodingType::ADPCM as u64, SignalEncodingType::_16bitLinearPCM2sComplementBigEndian as u64, SignalEncodingType::_8bitLinearPCMUnsigned as u64, SignalEncodingType::VQ as u64, SignalEncodingType::GSMFullRate as u64, SignalEncodingType::GSMHalfRate as u64, SignalEncodingType::SpeexNarrowBand as u64, SignalEncodingType::Opus as u64, SignalEncodingType::LPC10 as u64, SignalEncodingType::_16bitLinearPCM2sComplementLittleEndian as u64], decode: |mut b| { let v = SignalEncodingType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SignalEncodingType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SignalEncodingType::_8bitmulaw, SignalEncodingType::CVSD, SignalEncodingType::ADPCM, SignalEncodingType::_16bitLinearPCM2sComplementBigEndian, SignalEncodingType::_8bitLinearPCMUnsigned, SignalEncodingType::VQ, SignalEncodingType::GSMFullRate, SignalEncodingType::GSMHalfRate, SignalEncodingType::SpeexNarrowBand, SignalEncodingType::Opus, SignalEncodingType::LPC10, SignalEncodingType::_16bitLinearPCM2sComplementLittleEndian], |v| v as u64), scan: None },
  EnumRow { name: "RepairGroups", bits: 8, default: 0, codes: &[("GeneralRepairCodes", 0), ("DriveTrain", 1), ("HullAirframeBody", 2), ("InterfacesWithEnvironment", 3), ("Weapons", 4), ("FuelSystems", 5), ("Electronics", 6), ("LifeSupportSystems", 7), ("HydraulicSystemsAndActuators", 8), ("AuxiliaryCraft", 9)], actual: || vec![RepairGroups::GeneralRepairCodes as u64, RepairGroups::DriveTrain as u64, RepairGroups::HullAirframeBody as u64, RepairGroups::InterfacesWithEnvironment as u64, RepairGroups::Weapons as u64, RepairGroups::FuelSystems as u64, RepairGroups::Electronics as u64, RepairGroups::LifeSupportSystems as u64, RepairGroups::HydraulicSystemsAndActuators as u64, RepairGroups::AuxiliaryCraft as u64], decode: |mut b| { let v = RepairGroups::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <RepairGroups as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_REPAIRGROUPS[i], b), |mut b| <RepairGroups as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_REPAIRGROUPS[i]))), pairs: || crate::core::pairs(&[RepairGroups::GeneralRepairCodes, RepairGroups::DriveTrain, RepairGroups::HullAirframeBody, RepairGroups::InterfacesWithEnvironment, RepairGroups::Weapons, RepairGroups::FuelSystems, RepairGroups::Electronics, RepairGroups::LifeSupportSystems, RepairGroups::HydraulicSystemsAndActuators, RepairGroups::AuxiliaryCraft], |v| v as u64), scan: None },
  EnumRow { name: "EnvironmentRecordTypeGroups", bits: 8, default: 0, codes: &[("State", 0), ("Geometry", 1)], actual: || vec![EnvironmentRecordTypeGroups::State as u64, EnvironmentRecordTypeGroups::Geometry as u64], decode: |mut b| { let v = EnvironmentRecordTypeGroups::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EnvironmentRecordTypeGroups as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EnvironmentRecordTypeGroups::State, EnvironmentRecordTypeGroups::Geometry], |v| v as u64), scan: None },
  EnumRow { name: "PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories", bits: 8, default: 1, codes: &[("HangGliderUnpowered", 1), ("HangGliderPowered", 2), ("ParagliderUnpowered", 3), ("ParagliderPowered", 4), ("PoweredParachute", 5)], actual: || vec![PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::HangGliderUnpowered as u64, PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::HangGliderPowered as u64, PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::ParagliderUnpowered as u64, PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::ParagliderPowered as u64, PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::PoweredParachute as u64], decode: |mut b| { let v = PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::HangGliderUnpowered, PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::HangGliderPowered, PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::ParagliderUnpowered, PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::ParagliderPowered, PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::PoweredParachute], |v| v as u64), scan: None },
  EnumRow { name: "PlatformAirCivilianUltralightRigidWingAircraftSubcategories", bits: 8, default: 1, codes: &[("Weightshiftcontrol", 1), ("Controlsurfacecontrol", 2)], actual: || vec![PlatformAirCivilianUltralightRigidWingAircraftSubcategories::Weightshiftcontrol as u64, PlatformAirCivilianUltralightRigidWingAircraftSubcategories::Controlsurfacecontrol as u64], decode: |mut b| { let v = PlatformAirCivilianUltralightRigidWingAircraftSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformAirCivilianUltralightRigidWingAircraftSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformAirCivilianUltralightRigidWingAircraftSubcategories::Weightshiftcontrol, PlatformAirCivilianUltralightRigidWingAircraftSubcategories::Controlsurfacecontrol], |v| v as u64), scan: None },
  EnumRow { name: "PlatformAirCivilianGliderSubcategories", bits: 8, default: 1, codes: &[("SailPlane", 1), ("MotorGlider", 2)], actual: || vec![PlatformAirCivilianGliderSubcategories::SailPlane as u64, PlatformAirCivilianGliderSubcategories::MotorGlider as u64], decode: |mut b| { let v = PlatformAirCivilianGliderSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformAirCivilianGliderSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformAirCivilianGliderSubcategories::SailPlane, PlatformAirCivilianGliderSubcategories::MotorGlider], |v| v as u64), scan: None },
  EnumRow { name: "PlatformAirCivilianFixedWingAircraftSubcategories", bits: 8, default: 11, codes: &[("SinglePistonEngine", 11), ("TwinPistonEngine", 12), ("SingleEngineTurboprop", 21), ("TwinEngineTurboprop", 22), ("FourEngineTurboprop", 24), ("TwinJet", 32), ("TriJet", 33), ("FourEngineJet", 34)], actual: || vec![PlatformAirCivilianFixedWingAircraftSubcategories::SinglePistonEngine as u64, PlatformAirCivilianFixedWingAircraftSubcategories::TwinPistonEngine as u64, PlatformAirCivilianFixedWingAircraftSubcategories::SingleEngineTurboprop as u64, PlatformAirCivilianFixedWingAircraftSubcategories::TwinEngineTurboprop as u64, PlatformAirCivilianFixedWingAircraftSubcategories::FourEngineTurboprop as u64, PlatformAirCivilianFixedWingAircraftSubcategories::TwinJet as u64, PlatformAirCivilianFixedWingAircraftSubcategories::TriJet as u64, PlatformAirCivilianFixedWingAircraftSubcategories::FourEngineJet as u64], decode: |mut b| { let v = PlatformAirCivilianFixedWingAircraftSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformAirCivilianFixedWingAircraftSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformAirCivilianFixedWingAircraftSubcategories::SinglePistonEngine, PlatformAirCivilianFixedWingAircraftSubcategories::TwinPistonEngine, PlatformAirCivilianFixedWingAircraftSubcategories::SingleEngineTurboprop, PlatformAirCivilianFixedWingAircraftSubcategories::TwinEngineTurboprop, PlatformAirCivilianFixedWingAircraftSubcategories::FourEngineTurboprop, PlatformAirCivilianFixedWingAircraftSubcategories::TwinJet, PlatformAirCivilianFixedWingAircraftSubcategories::TriJet, PlatformAirCivilianFixedWingAircraftSubcategories::FourEngineJet], |v| v as u64), scan: None },
  EnumRow { name: "PlatformAirCivilianHelicopterSubcategories", bits: 8, default: 11, codes: &[("SingleRotorPistonEngine", 11), ("SingleRotorTurboshaftEngineConventionalTailRotor", 12), ("SingleRotorTurboshaftEngineShroudedTailRotor", 13), ("SingleRotorTurboshaftEngineNoTailRotor", 14), ("TandemRotor", 21), ("CoaxialRotor", 22), ("IntermeshingRotor", 23)], actual: || vec![PlatformAirCivilianHelicopterSubcategories::SingleRotorPistonEngine as u64, PlatformAirCivilianHelicopterSubcategories::SingleRotorTurboshaftEngineConventionalTailRotor as u64, PlatformAirCivilianHelicopterSubcategories::SingleRotorTurboshaftEngineShroudedTailRotor as u64, PlatformAirCivilianHelicopterSubcategories::SingleRotorTurboshaftEngineNoTailRotor as u64, PlatformAirCivilianHelicopterSubcategories::TandemRotor as u64, PlatformAirCivilianHelicopterSubcategories::CoaxialRotor as u64, PlatformAirCivilianHelicopterSubcategories::IntermeshingRotor as u64], decode: |mut b| { let v = PlatformAirCivilianHelicopterSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformAirCivilianHelicopterSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformAirCivilianHelicopterSubcategories::SingleRotorPistonEngine, PlatformAirCivilianHelicopterSubcategories::SingleRotorTurboshaftEngineConventionalTailRotor, PlatformAirCivilianHelicopterSubcategories::SingleRotorTurboshaftEngineShroudedTailRotor, PlatformAirCivilianHelicopterSubcategories::SingleRotorTurboshaftEngineNoTailRotor, PlatformAirCivilianHelicopterSubcategories::TandemRotor, PlatformAirCivilianHelicopterSubcategories::CoaxialRotor, PlatformAirCivilianHelicopterSubcategories::IntermeshingRotor], |v| v as u64), scan: None },
  EnumRow { name: "PlatformAirCivilianLighterthanAirBalloonSubcategories", bits: 8, default: 1, codes: &[("Gasfilledfree", 1), ("Gasfilledtethered", 2), ("HotAir", 3), ("RoziereBalloon", 4), ("Helikite", 5)], actual: || vec![PlatformAirCivilianLighterthanAirBalloonSubcategories::Gasfilledfree as u64, PlatformAirCivilianLighterthanAirBalloonSubcategories::Gasfilledtethered as u64, PlatformAirCivilianLighterthanAirBalloonSubcategories::HotAir as u64, PlatformAirCivilianLighterthanAirBalloonSubcategories::RoziereBalloon as u64, PlatformAirCivilianLighterthanAirBalloonSubcategories::Helikite as u64], decode: |mut b| { let v = PlatformAirCivilianLighterthanAirBalloonSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformAirCivilianLighterthanAirBalloonSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformAirCivilianLighterthanAirBalloonSubcategories::Gasfilledfree, PlatformAirCivilianLighterthanAirBalloonSubcategories::Gasfilledtethered, PlatformAirCivilianLighterthanAirBalloonSubcategories::HotAir, PlatformAirCivilianLighterthanAirBalloonSubcategories::RoziereBalloon, PlatformAirCivilianLighterthanAirBalloonSubcategories::Helikite], |v| v as u64), scan: None },
  EnumRow { name: "PlatformAirCivilianLighterthanAirAirshipSubcategories", bits: 8, default: 1, codes: &[("Nonrigid", 1), ("Semirigid", 2), ("Rigid", 3), ("Hybrid", 4)], actual: || vec![PlatformAirCivilianLighterthanAirAirshipSubcategories::Nonrigid as u64, PlatformAirCivilianLighterthanAirAirshipSubcategories::Semirigid as u64, PlatformAirCivilianLighterthanAirAirshipSubcategories::Rigid as u64, PlatformAirCivilianLighterthanAirAirshipSubcategories::Hybrid as u64], decode: |mut b| { let v = PlatformAirCivilianLighterthanAirAirshipSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformAirCivilianLighterthanAirAirshipSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformAirCivilianLighterthanAirAirshipSubcategories::Nonrigid, PlatformAirCivilianLighterthanAirAirshipSubcategories::Semirigid, PlatformAirCivilianLighterthanAirAirshipSubcategories::Rigid, PlatformAirCivilianLighterthanAirAirshipSubcategories::Hybrid], |v| v as u64), scan: None },
  EnumRow { name: "APAParameterIndexAPAStatus", bits: 8, default: 0, codes: &[("DeselectedOff", 0), ("APAValueChangeOnly", 1), ("StateChange", 2), ("RecordActivation", 3)], actual: || vec![APAParameterIndexAPAStatus::DeselectedOff as u64, APAParameterIndexAPAStatus::APAValueChangeOnly as u64, APAParameterIndexAPAStatus::StateChange as u64, APAParameterIndexAPAStatus::RecordActivation as u64], decode: |mut b| { let v = APAParameterIndexAPAStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <APAParameterIndexAPAStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[APAParameterIndexAPAStatus::DeselectedOff, APAParameterIndexAPAStatus::APAValueChangeOnly, APAParameterIndexAPAStatus::StateChange, APAParameterIndexAPAStatus::RecordActivation], |v| v as u64), scan: None },
  EnumRow { name: "SeparationVPReasonforSeparation", bits: 8, default: 0, codes: &[("NoStatement", 0), ("AttachedPartSeparation", 1), ("SubmunitionSeparation", 2)], actual: || vec![SeparationVPReasonforSeparation::NoStatement as u64, SeparationVPReasonforSeparation::AttachedPartSeparation as u64, SeparationVPReasonforSeparation::SubmunitionSeparation as u64], decode: |mut b| { let v = SeparationVPReasonforSeparation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SeparationVPReasonforSeparation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SeparationVPReasonforSeparation::NoStatement, SeparationVPReasonforSeparation::AttachedPartSeparation, SeparationVPReasonforSeparation::SubmunitionSeparation], |v| v as u64), scan: None },
  EnumRow { name: "SeparationVPPreEntityIndicator", bits: 8, default: 0, codes: &[("NoStatement", 0), ("EntityIDExistedPriortoSeparationwithoutEntityStatePDU", 1), ("EntityIDExistedPriortoSeparationwithEntityStatePDUIssued", 2), ("EntityInitiallyCreatedAtSeparationEvent", 3)], actual: || vec![SeparationVPPreEntityIndicator::NoStatement as u64, SeparationVPPreEntityIndicator::EntityIDExistedPriortoSeparationwithoutEntityStatePDU as u64, SeparationVPPreEntityIndicator::EntityIDExistedPriortoSeparationwithEntityStatePDUIssued as u64, SeparationVPPreEntityIndicator::EntityInitiallyCreatedAtSeparationEvent as u64], decode: |mut b| { let v = SeparationVPPreEntityIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SeparationVPPreEntityIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SeparationVPPreEntityIndicator::NoStatement, SeparationVPPreEntityIndicator::EntityIDExistedPriortoSeparationwithoutEntityStatePDU, SeparationVPPreEntityIndicator::EntityIDExistedPriortoSeparationwithEntityStatePDUIssued, SeparationVPPreEntityIndicator::EntityInitiallyCreatedAtSeparationEvent], |v| v as u64), scan: None },
  EnumRow { name: "IOActionIOWarfareType", bits: 16, default: 0, codes: &[("NoStatement", 0), ("ElectronicWarfare", 1), ("ComputerNetworkOperations", 2), ("PsychologicalOperations", 3), ("MilitaryDeception", 4), ("OperationsSecurity", 5), ("PhysicalAttack", 6)], actual: || vec![IOActionIOWarfareType::NoStatement as u64, IOActionIOWarfareType::ElectronicWarfare as u64, IOActionIOWarfareType::ComputerNetworkOperations as u64, IOActionIOWarfareType::PsychologicalOperations as u64, IOActionIOWarfareType::MilitaryDeception as u64, IOActionIOWarfareType::OperationsSecurity as u64, IOActionIOWarfareType::PhysicalAttack as u64], decode: |mut b| { let v = IOActionIOWarfareType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IOActionIOWarfareType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_IOACTIONIOWARFARETYPE[i], b), |mut b| <IOActionIOWarfareType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_IOACTIONIOWARFARETYPE[i]))), pairs: || crate::core::pairs(&[IOActionIOWarfareType::NoStatement, IOActionIOWarfareType::ElectronicWarfare, IOActionIOWarfareType::ComputerNetworkOperations, IOActionIOWarfareType::PsychologicalOperations, IOActionIOWarfareType::MilitaryDeception, IOActionIOWarfareType::OperationsSecurity, IOActionIOWarfareType::PhysicalAttack], |v| v as u64), scan: None },
  EnumRow { name: "IOActionIOSimulationSource", bits: 16, default: 0, codes: &[("NoStatement", 0)], actual: || vec![IOActionIOSimulationSource::NoStatement as u64], decode: |mut b| { let v = IOActionIOSimulationSource::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IOActionIOSimulationSource as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_IOACTIONIOSIMULATIONSOURCE[i], b), |mut b| <IOActionIOSimulationSource as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_IOACTIONIOSIMULATIONSOURCE[i]))), pairs: || crate::core::pairs(&[IOActionIOSimulationSource::NoStatement], |v| v as u64), scan: None },
  EnumRow { name: "IOActionIOActionType", bits: 16, default: 0, codes: &[("NoStatement", 0), ("IOAttackProfileData", 1), ("IOAttackComputedEffects", 2), ("IntentBasedEW", 3), ("IntentBasedEWComputedEffects", 4)], actual: || vec![IOActionIOActionType::NoStatement as u64, IOActionIOActionType::IOAttackProfileData as u64, IOActionIOActionType::IOAttackComputedEffects as u64, IOActionIOActionType::IntentBasedEW as u64, IOActionIOActionType::IntentBasedEWComputedEffects as u64], decode: |mut b| { let v = IOActionIOActionType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IOActionIOActionType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_IOACTIONIOACTIONTYPE[i], b), |mut b| <IOActionIOActionType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_IOACTIONIOACTIONTYPE[i]))), pairs: || crate::core::pairs(&[IOActionIOActionType::NoStatement, IOActionIOActionType::IOAttackProfileData, IOActionIOActionType::IOAttackComputedEffects, IOActionIOActionType::IntentBasedEW, IOActionIOActionType::IntentBasedEWComputedEffects], |v| v as u64), scan: None },
  EnumRow { name: "IOActionIOActionPhase", bits: 16, default: 0, codes: &[("NoStatement", 0), ("StartAttackProfile", 1), ("EndAttackProfile", 2), ("ContinueAttackProfilewithChanges", 3), ("StartAttackEffects", 4), ("EndAttackedEffects", 5), ("ContinueAttackEffectswithChanges", 6)], actual: || vec![IOActionIOActionPhase::NoStatement as u64, IOActionIOActionPhase::StartAttackProfile as u64, IOActionIOActionPhase::EndAttackProfile as u64, IOActionIOActionPhase::ContinueAttackProfilewithChanges as u64, IOActionIOActionPhase::StartAttackEffects as u64, IOActionIOActionPhase::EndAttackedEffects as u64, IOActionIOActionPhase::ContinueAttackEffectswithChanges as u64], decode: |mut b| { let v = IOActionIOActionPhase::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IOActionIOActionPhase as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_IOACTIONIOACTIONPHASE[i], b), |mut b| <IOActionIOActionPhase as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_IOACTIONIOACTIONPHASE[i]))), pairs: || crate::core::pairs(&[IOActionIOActionPhase::NoStatement, IOActionIOActionPhase::StartAttackProfile, IOActionIOActionPhase::EndAttackProfile, IOActionIOActionPhase::ContinueAttackProfilewithChanges, IOActionIOActionPhase::StartAttackEffects, IOActionIOActionPhase::EndAttackedEffects, IOActionIOActionPhase::ContinueAttackEffectswithChanges], |v| v as u64), scan: None },
  EnumRow { name: "IOReportIOReportType", bits: 8, default: 0, codes: &[("NoStatement", 0), ("InitialReport", 1), ("UpdateReport", 2), ("FinalReport", 3)], actual: || vec![IOReportIOReportType::NoStatement as u64, IOReportIOReportType::InitialReport as u64, IOReportIOReportType::UpdateReport as u64, IOReportIOReportType::FinalReport as u64], decode: |mut b| { let v = IOReportIOReportType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IOReportIOReportType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_IOREPORTIOREPORTTYPE[i], b), |mut b| <IOReportIOReportType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_IOREPORTIOREPORTTYPE[i]))), pairs: || crate::core::pairs(&[IOReportIOReportType::NoStatement, IOReportIOReportType::InitialReport, IOReportIOReportType::UpdateReport, IOReportIOReportType::FinalReport], |v| v as u64), scan: None },
  EnumRow { name: "IOEffectsRecordIOStatus", bits: 8, default: 0, codes: &[("NoStatement", 0), ("EffectonSender", 1), ("EffectonReceiver", 2), ("EffectonSenderandReceiver", 3), ("EffectonMessage", 4), ("EffectonSenderandMessage", 5), ("EffectonReceiverandMessage", 6), ("EffectonSenderReceiverandMessage", 7)], actual: || vec![IOEffectsRecordIOStatus::NoStatement as u64, IOEffectsRecordIOStatus::EffectonSender as u64, IOEffectsRecordIOStatus::EffectonReceiver as u64, IOEffectsRecordIOStatus::EffectonSenderandReceiver as u64, IOEffectsRecordIOStatus::EffectonMessage as u64, IOEffectsRecordIOStatus::EffectonSenderandMessage as u64, IOEffectsRecordIOStatus::EffectonReceiverandMessage as u64, IOEffectsRecordIOStatus::EffectonSenderReceiverandMessage as u64], decode: |mut b| { let v = IOEffectsRecordIOStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IOEffectsRecordIOStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IOEffectsRecordIOStatus::NoStatement, IOEffectsRecordIOStatus::EffectonSender, IOEffectsRecordIOStatus::EffectonReceiver, IOEffectsRecordIOStatus::EffectonSenderandReceiver, IOEffectsRecordIOStatus::EffectonMessage, IOEffectsRecordIOStatus::EffectonSenderandMessage, IOEffectsRecordIOStatus::EffectonReceiverandMessage, IOEffectsRecordIOStatus::EffectonSenderReceiverandMessage], |v| v as u64), scan: None },
  EnumRow { name: "IOEffectsRecordIOLinkType", bits: 8, default: 0, codes: &[("NoStatement", 0), ("LogicalLink", 1), ("PhysicalNode", 2), ("PhysicalLink", 3)], actual: || vec![IOEffectsRecordIOLinkType::NoStatement as u64, IOEffectsRecordIOLinkType::LogicalLink as u64, IOEffectsRecordIOLinkType::PhysicalNode as u64, IOEffectsRecordIOLinkType::PhysicalLink as u64], decode: |mut b| { let v = IOEffectsRecordIOLinkType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IOEffectsRecordIOLinkType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IOEffectsRecordIOLinkType::NoStatement, IOEffectsRecordIOLinkType::LogicalLink, IOEffectsRecordIOLinkType::PhysicalNode, IOEffectsRecordIOLinkType::PhysicalLink], |v| v as u64), scan: None },
  EnumRow { name: "IOEffectsRecordIOEffect", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Denial", 1), ("Degradation", 2), ("Disruption", 3), ("TerminateEffect", 255)], actual: || vec![IOEffectsRecordIOEffect::NoStatement as u64, IOEffectsRecordIOEffect::Denial as u64, IOEffectsRecordIOEffect::Degradation as u64, IOEffectsRecordIOEffect::Disruption as u64, IOEffectsRecordIOEffect::TerminateEffect as u64], decode: |mut b| { let v = IOEffectsRecordIOEffect::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IOEffectsRecordIOEffect as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IOEffectsRecordIOEffect::NoStatement, IOEffectsRecordIOEffect::Denial, IOEffectsRecordIOEffect::Degradation, IOEffectsRecordIOEffect::Disruption, IOEffectsRecordIOEffect::TerminateEffect], |v| v as u64), scan: None },
  EnumRow { name: "IOEffectsRecordIOProcess", bits: 8, default: 0, codes: &[("NoStatement", 0)], actual: || vec![IOEffectsRecordIOProcess::NoStatement as u64], decode: |mut b| { let v = IOEffectsRecordIOProcess::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IOEffectsRecordIOProcess as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IOEffectsRecordIOProcess::NoStatement], |v| v as u64), scan: None },
  EnumRow { name: "IOCommsNodeRecordCommsNodeType", bits: 8, default: 0, codes: &[("NoStatement", 0), ("SenderNodeID", 1), ("ReceiverNodeID", 2), ("SenderReceiverNodeID", 3)], actual: || vec![IOCommsNodeRecordCommsNodeType::NoStatement as u64, IOCommsNodeRecordCommsNodeType::SenderNodeID as u64, IOCommsNodeRecordCommsNodeType::ReceiverNodeID as u64, IOCommsNodeRecordCommsNodeType::SenderReceiverNodeID as u64], decode: |mut b| { let v = IOCommsNodeRecordCommsNodeType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IOCommsNodeRecordCommsNodeType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IOCommsNodeRecordCommsNodeType::NoStatement, IOCommsNodeRecordCommsNodeType::SenderNodeID, IOCommsNodeRecordCommsNodeType::ReceiverNodeID, IOCommsNodeRecordCommsNodeType::SenderReceiverNodeID], |v| v as u64), scan: None },
  EnumRow { name: "DISAttributeActionCode", bits: 8, default: 0, codes: &[("NoStatement", 0)], actual: || vec![DISAttributeActionCode::NoStatement as u64], decode: |mut b| { let v = DISAttributeActionCode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DISAttributeActionCode as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_DISATTRIBUTEACTIONCODE[i], b), |mut b| <DISAttributeActionCode as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_DISATTRIBUTEACTIONCODE[i]))), pairs: || crate::core::pairs(&[DISAttributeActionCode::NoStatement], |v| v as u64), scan: None },
  EnumRow { name: "DRParametersType", bits: 8, default: 0, codes: &[("None", 0), ("LocalEulerAngles", 1), ("WorldOrientationQuaternion", 2)], actual: || vec![DRParametersType::None as u64, DRParametersType::LocalEulerAngles as u64, DRParametersType::WorldOrientationQuaternion as u64], decode: |mut b| { let v = DRParametersType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DRParametersType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[DRParametersType::None, DRParametersType::LocalEulerAngles, DRParametersType::WorldOrientationQuaternion], |v| v as u64), scan: None },
  EnumRow { name: "HighFidelityHAVEQUICKTODTransmitIndicator", bits: 8, default: 0, codes: &[("NoTODIsBeingTransmitted", 0), ("TODTransmissioninProgress", 1)], actual: || vec![HighFidelityHAVEQUICKTODTransmitIndicator::NoTODIsBeingTransmitted as u64, HighFidelityHAVEQUICKTODTransmitIndicator::TODTransmissioninProgress as u64], decode: |mut b| { let v = HighFidelityHAVEQUICKTODTransmitIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <HighFidelityHAVEQUICKTODTransmitIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[HighFidelityHAVEQUICKTODTransmitIndicator::NoTODIsBeingTransmitted, HighFidelityHAVEQUICKTODTransmitIndicator::TODTransmissioninProgress], |v| v as u64), scan: None },
  EnumRow { name: "NETIDRecordMode", bits: 8, default: 1, codes: &[("AHAVEQUICKIorHAVEQUICKIICOMBAT", 1), ("BSATURNCOMBAT", 2), ("TTRAINING", 3)], actual: || vec![NETIDRecordMode::AHAVEQUICKIorHAVEQUICKIICOMBAT as u64, NETIDRecordMode::BSATURNCOMBAT as u64, NETIDRecordMode::TTRAINING as u64], decode: |mut b| { let v = NETIDRecordMode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <NETIDRecordMode as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[NETIDRecordMode::AHAVEQUICKIorHAVEQUICKIICOMBAT, NETIDRecordMode::BSATURNCOMBAT, NETIDRecordMode::TTRAINING], |v| v as u64), scan: None },
  EnumRow { name: "NETIDRecordFrequencyTable", bits: 8, default: 0, codes: &[("HQIOperations", 0), ("HQIINATOEuropeAreaOperations", 1), ("HQIINonNATOEuropeAreaOperations", 2), ("SATURNOperations", 3)], actual: || vec![NETIDRecordFrequencyTable::HQIOperations as u64, NETIDRecordFrequencyTable::HQIINATOEuropeAreaOperations as u64, NETIDRecordFrequencyTable::HQIINonNATOEuropeAreaOperations as u64, NETIDRecordFrequencyTable::SATURNOperations as u64], decode: |mut b| { let v = NETIDRecordFrequencyTable::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <NETIDRecordFrequencyTable as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[NETIDRecordFrequencyTable::HQIOperations, NETIDRecordFrequencyTable::HQIINATOEuropeAreaOperations, NETIDRecordFrequencyTable::HQIINonNATOEuropeAreaOperations, NETIDRecordFrequencyTable::SATURNOperations], |v| v as u64), scan: None },
  EnumRow { name: "EEAttributeStateIndicator", bits: 8, default: 0, codes: &[("HeartbeatUpdate", 0), ("ChangedData", 1), ("HasCeased", 2)], actual: || vec![EEAttributeStateIndicator::HeartbeatUpdate as u64, EEAttributeStateIndicator::ChangedData as u64, EEAttributeStateIndicator::HasCeased as u64], decode: |mut b| { let v = EEAttributeStateIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EEAttributeStateIndicator as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_EEATTRIBUTESTATEINDICATOR[i], b), |mut b| <EEAttributeStateIndicator as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_EEATTRIBUTESTATEINDICATOR[i]))), pairs: || crate::core::pairs(&[EEAttributeStateIndicator::HeartbeatUpdate, EEAttributeStateIndicator::ChangedData, EEAttributeStateIndicator::HasCeased], |v| v as u64), scan: None },
  EnumRow { name: "TransferredEntityIndicator", bits: 8, default: 0, codes: &[("NoDifference", 0), ("Difference", 1)], actual: || vec![TransferredEntityIndicator::NoDifference as u64, TransferredEntityIndicator::Difference as u64], decode: |mut b| { let v = TransferredEntityIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransferredEntityIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransferredEntityIndicator::NoDifference, TransferredEntityIndicator::Difference], |v| v as u64), scan: None },
  EnumRow { name: "LVCIndicator", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Live", 1), ("Virtual", 2), ("Constructive", 3)], actual: || vec![LVCIndicator::NoStatement as u64, LVCIndicator::Live as u64, LVCIndicator::Virtual as u64, LVCIndicator::Constructive as u64], decode: |mut b| { let v = LVCIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LVCIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LVCIndicator::NoStatement, LVCIndicator::Live, LVCIndicator::Virtual, LVCIndicator::Constructive], |v| v as u64), scan: None },
  EnumRow { name: "CoupledExtensionIndicator", bits: 8, default: 0, codes: &[("NotCoupled", 0), ("Coupled", 1)], actual: || vec![CoupledExtensionIndicator::NotCoupled as u64, CoupledExtensionIndicator::Coupled as u64], decode: |mut b| { let v = CoupledExtensionIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <CoupledExtensionIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[CoupledExtensionIndicator::NotCoupled, CoupledExtensionIndicator::Coupled], |v| v as u64), scan: None },
  EnumRow { name: "FireTypeIndicator", bits: 8, default: 0, codes: &[("Munition", 0), ("Expendable", 1)], actual: || vec![FireTypeIndicator::Munition as u64, FireTypeIndicator::Expendable as u64], decode: |mut b| { let v = FireTypeIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <FireTypeIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[FireTypeIndicator::Munition, FireTypeIndicator::Expendable], |v| v as u64), scan: None },
  EnumRow { name: "DetonationTypeIndicator", bits: 8, default: 0, codes: &[("Munition", 0), ("Expendable", 1), ("NonMunitionExplosion", 2)], actual: || vec![DetonationTypeIndicator::Munition as u64, DetonationTypeIndicator::Expendable as u64, DetonationTypeIndicator::NonMunitionExplosion as u64], decode: |mut b| { let v = DetonationTypeIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DetonationTypeIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[DetonationTypeIndicator::Munition, DetonationTypeIndicator::Expendable, DetonationTypeIndicator::NonMunitionExplosion], |v| v as u64), scan: None },
  EnumRow { name: "RadioAttachedIndicator", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Unattached", 1), ("Attached", 2)], actual: || vec![RadioAttachedIndicator::NoStatement as u64, RadioAttachedIndicator::Unattached as u64, RadioAttachedIndicator::Attached as u64], decode: |mut b| { let v = RadioAttachedIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <RadioAttachedIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[RadioAttachedIndicator::NoStatement, RadioAttachedIndicator::Unattached, RadioAttachedIndicator::Attached], |v| v as u64), scan: None },
  EnumRow { name: "IntercomAttachedIndicator", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Unattached", 1), ("Attached", 2)], actual: || vec![IntercomAttachedIndicator::NoStatement as u64, IntercomAttachedIndicator::Unattached as u64, IntercomAttachedIndicator::Attached as u64], decode: |mut b| { let v = IntercomAttachedIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IntercomAttachedIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IntercomAttachedIndicator::NoStatement, IntercomAttachedIndicator::Unattached, IntercomAttachedIndicator::Attached], |v| v as u64), scan: None },
  EnumRow { name: "PduStatusIFFSimulationMode", bits: 8, default: 0, codes: &[("Regeneration", 0), ("Interactive", 1)], actual: || vec![PduStatusIFFSimulationMode::Regeneration as u64, PduStatusIFFSimulationMode::Interactive as u64], decode: |mut b| { let v = PduStatusIFFSimulationMode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PduStatusIFFSimulationMode as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PduStatusIFFSimulationMode::Regeneration, PduStatusIFFSimulationMode::Interactive], |v| v as u64), scan: None },
  EnumRow { name: "ExplosiveMaterialGroups", bits: 8, default: 0, codes: &[("General", 0), ("LiquidAviationMissileFuels", 1), ("LiquidOtherFuels", 2), ("LiquidExplosiveMaterial", 3), ("Solid", 4), ("Gaseous", 5), ("DustMaterial", 6)], actual: || vec![ExplosiveMaterialGroups::General as u64, ExplosiveMaterialGroups::LiquidAviationMissileFuels as u64, ExplosiveMaterialGroups::LiquidOtherFuels as u64, ExplosiveMaterialGroups::LiquidExplosiveMaterial as u64, ExplosiveMaterialGroups::Solid as u64, ExplosiveMaterialGroups::Gaseous as u64, ExplosiveMaterialGroups::DustMaterial as u64], decode: |mut b| { let v = ExplosiveMaterialGroups::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ExplosiveMaterialGroups as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ExplosiveMaterialGroups::General, ExplosiveMaterialGroups::LiquidAviationMissileFuels, ExplosiveMaterialGroups::LiquidOtherFuels, ExplosiveMaterialGroups::LiquidExplosiveMaterial, ExplosiveMaterialGroups::Solid, ExplosiveMaterialGroups::Gaseous, ExplosiveMaterialGroups::DustMaterial], |v| v as u64), scan: None },
  EnumRow { name: "ExplosiveMaterialCategories", bits: 16, default: 0, codes: &[("NoStatement", 0), ("AVGAS", 10), ("JetFuel", 11), ("JP4", 12), ("JP5", 13), ("JP7", 14), ("JP8", 15), ("JP10MissileFuel", 16), ("JPTS", 17), ("JetA", 18), ("JetA1", 19), ("JetB", 20), ("JetBiofuel", 21), ("GasolinePetrolUnspecifiedOctane", 151), ("DieselFuelUnspecifiedGrade", 152), ("Ethanol", 153), ("E85Ethanol", 154), ("FuelOil", 155), ("Kerosene", 156), ("CrudeOil", 157), ("LightCrudeOil", 158), ("LiquidPetroleumGas", 159), ("RP1RocketFuel", 160), ("LH2RocketFuel", 161), ("LOXRocketFuel", 162), ("Alcohol", 164), ("HydrogenLiquid", 166), ("Nitroglycerin", 301), ("ANFO", 302), ("Dynamite", 451), ("TNT", 452), ("RDX", 453), ("PETN", 454), ("HMX", 455), ("C4", 456), ("CompositionC4", 457), ("NaturalGas", 601), ("Butane", 602), ("Propane", 603), ("Helium", 604), ("HydrogenGaseous", 605), ("DustUnspecifiedType", 801), ("GrainDust", 802), ("FlourDust", 803), ("SugarDust", 804)], actual: || vec![ExplosiveMaterialCategories::NoStatement as u64, ExplosiveMaterialCategories::AVGAS as u64, ExplosiveMaterialCategories::JetFuel as u64, ExplosiveMaterialCategories::JP4 as u64, ExplosiveMaterialCategories::JP5 as u64, ExplosiveMaterialCategories::JP7 as u64, ExplosiveMaterialCategories::JP8 as u64, ExplosiveMaterialCategories::JP10MissileFuel as u64, ExplosiveMaterialCategories::JPTS as u64, ExplosiveMaterialCategories::JetA as u64, ExplosiveMaterialCategories::JetA1 as u64, ExplosiveMaterialCategories::JetB as u64, ExplosiveMaterialCategories::JetBiofuel as u64, ExplosiveMaterialCategories::GasolinePetrolUnspecifiedOctane as u64, ExplosiveMaterialCategories::DieselFuelUnspecifiedGrade as u64, ExplosiveMaterialCategories::Ethanol as u64, ExplosiveMaterialCategories::E85Ethanol as u64, ExplosiveMaterialCategories::FuelOil as u64, ExplosiveMaterialCategories::Kerosene as u64, ExplosiveMaterialCategories::CrudeOil as u64, ExplosiveMaterialCategories::LightCrudeOil as u64, ExplosiveMaterialCategories::LiquidPetroleumGas as u64, ExplosiveMaterialCategories::RP1RocketFuel as u64, ExplosiveMaterialCategories::LH2RocketFuel as u64, ExplosiveMaterialCategories::LOXRocketFuel as u64, ExplosiveMaterialCategories::Alcohol as u64, ExplosiveMaterialCategories::HydrogenLiquid as u64, ExplosiveMaterialCategories::Nitroglycerin as u64, ExplosiveMaterialCategories::ANFO as u64, ExplosiveMaterialCategories::Dynamite as u64, ExplosiveMaterialCategories::TNT as u64, ExplosiveMaterialCategories::RDX as u64, ExplosiveMaterialCategories::PETN as u64, ExplosiveMaterialCategories::HMX as u64, ExplosiveMaterialCategories::C4 as u64, ExplosiveMaterialCategories::CompositionC4 as u64, ExplosiveMaterialCategories::NaturalGas as u64, ExplosiveMaterialCategories::Butane as u64, ExplosiveMaterialCategories::Propane as u64, ExplosiveMaterialCategories::Helium as u64, ExplosiveMaterialCategories::HydrogenGaseous as u64, ExplosiveMaterialCategories::DustUnspecifiedType as u64, ExplosiveMaterialCategories::GrainDust as u64, ExplosiveMaterialCategories::FlourDust as u64, ExplosiveMaterialCategories::SugarDust as u64], decode: |mut b| { let v = ExplosiveMaterialCategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ExplosiveMaterialCategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ExplosiveMaterialCategories::NoStatement, ExplosiveMaterialCategories::AVGAS, ExplosiveMaterialCategories::JetFuel, ExplosiveMaterialCategories::JP4, ExplosiveMaterialCategories::JP5, ExplosiveMaterialCategories::JP7, ExplosiveMaterialCategories::JP8, ExplosiveMaterialCategories::JP10MissileFuel, ExplosiveMaterialCategories::JPTS, ExplosiveMaterialCategories::JetA, ExplosiveMaterialCategories::JetA1, ExplosiveMaterialCategories::JetB, ExplosiveMaterialCategories::JetBiofuel, ExplosiveMaterialCategories::GasolinePetrolUnspecifiedOctane, ExplosiveMaterialCategories::DieselFuelUnspecifiedGrade, ExplosiveMaterialCategories::Ethanol, ExplosiveMaterialCategories::E85Ethanol, ExplosiveMaterialCategories::FuelOil, ExplosiveMaterialCategories::Kerosene, ExplosiveMaterialCategories::CrudeOil, ExplosiveMaterialCategories::LightCrudeOil, ExplosiveMaterialCategories::LiquidPetroleumGas, ExplosiveMaterialCategories::RP1RocketFuel, ExplosiveMaterialCategories::LH2RocketFuel, ExplosiveMaterialCategories::LOXRocketFuel, ExplosiveMaterialCategories::Alcohol, ExplosiveMaterialCategories::HydrogenLiquid, ExplosiveMaterialCategories::Nitroglycerin, ExplosiveMaterialCategories::ANFO, ExplosiveMaterialCategories::Dynamite, ExplosiveMaterialCategories::TNT, ExplosiveMaterialCategories::RDX, ExplosiveMaterialCategories::PETN, ExplosiveMaterialCategories::HMX, ExplosiveMaterialCategories::C4, ExplosiveMaterialCategories::CompositionC4, ExplosiveMaterialCategories::NaturalGas, ExplosiveMaterialCategories::Butane, ExplosiveMaterialCategories::Propane, ExplosiveMaterialCategories::Helium, ExplosiveMaterialCategories::HydrogenGaseous, ExplosiveMaterialCategories::DustUnspecifiedType, ExplosiveMaterialCategories::GrainDust, ExplosiveMaterialCategories::FlourDust, ExplosiveMaterialCategories::SugarDust], |v| v as u64), scan: None },
  EnumRow { name: "DEPrecisionAimpointBeamSpotType", bits: 8, default: 0, codes: &[("Other", 0), ("Gaussian", 1), ("TopHat", 2)], actual: || vec![DEPrecisionAimpointBeamSpotType::Other as u64, DEPrecisionAimpointBeamSpotType::Gaussian as u64, DEPrecisionAimpointBeamSpotType::TopHat as u64], decode: |mut b| { let v = DEPrecisionAimpointBeamSpotType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DEPrecisionAimpointBeamSpotType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[DEPrecisionAimpointBeamSpotType::Other, DEPrecisionAimpointBeamSpotType::Gaussian, DEPrecisionAimpointBeamSpotType::TopHat], |v| v as u64), scan: None },
  EnumRow { name: "DEFirePulseShape", bits: 8, default: 0, codes: &[("Other", 0), ("SquareWave", 1), ("ContinuousWave", 2), ("Gaussian", 3)], actual: || vec![DEFirePulseShape::Other as u64, DEFirePulseShape::SquareWave as u64, DEFirePulseShape::ContinuousWave as u64, DEFirePulseShape::Gaussian as u64], decode: |mut b| { let v = DEFirePulseShape::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DEFirePulseShape as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_DEFIREPULSESHAPE[i], b), |mut b| <DEFirePulseShape as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_DEFIREPULSESHAPE[i]))), pairs: || crate::core::pairs(&[DEFirePulseShape::Other, DEFirePulseShape::SquareWave, DEFirePulseShape::ContinuousWave, DEFirePulseShape::Gaussian], |v| v as u64), scan: None },
  EnumRow { name: "ComponentIdentification", bits: 8, default: 0, codes: &[("EntityCenter", 0), ("EntityStructure", 1), ("ControlSystem", 2), ("ControlSurface", 3), ("EnginePropulsionSystem", 4), ("CrewMember", 5), ("Fuse", 6), ("AcquisitionSensor", 7), ("TrackingSensor", 8), ("FuelTankSolidRocketMotor", 9)], actual: || vec![ComponentIdentification::EntityCenter as u64, ComponentIdentification::EntityStructure as u64, ComponentIdentification::ControlSystem as u64, ComponentIdentification::ControlSurface as u64, ComponentIdentification::EnginePropulsionSystem as u64, ComponentIdentification::CrewMember as u64, ComponentIdentification::Fuse as u64, ComponentIdentification::AcquisitionSensor as u64, ComponentIdentification::TrackingSensor as u64, ComponentIdentification::FuelTankSolidRocketMotor as u64], decode: |mut b| { let v = ComponentIdentification::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ComponentIdentification as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_COMPONENTIDENTIFICATION[i], b), |mut b| <ComponentIdentification as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_COMPONENTIDENTIFICATION[i]))), pairs: || crate::core::pairs(&[ComponentIdentification::EntityCenter, ComponentIdentification::EntityStructure, ComponentIdentification::ControlSystem, ComponentIdentification::ControlSurface, ComponentIdentification::EnginePropulsionSystem, ComponentIdentification::CrewMember, ComponentIdentification::Fuse, ComponentIdentification::AcquisitionSensor, ComponentIdentification::TrackingSensor, ComponentIdentification::FuelTankSolidRocketMotor], |v| v as u64), scan: None },
  EnumRow { name: "ComponentDamageStatus", bits: 8, default: 0, codes: &[("NoDamage", 0), ("MinorDamage", 1), ("MediumDamage", 2), ("MajorDamage", 3), ("Destroyed", 4)], actual: || vec![ComponentDamageStatus::NoDamage as u64, ComponentDamageStatus::MinorDamage as u64, ComponentDamageStatus::MediumDamage as u64, ComponentDamageStatus::MajorDamage as u64, ComponentDamageStatus::Destroyed as u64], decode: |mut b| { let v = ComponentDamageStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ComponentDamageStatus as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_COMPONENTDAMAGESTATUS[i], b), |mut b| <ComponentDamageStatus as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_COMPONENTDAMAGESTATUS[i]))), pairs: || crate::core::pairs(&[ComponentDamageStatus::NoDamage, ComponentDamageStatus::MinorDamage, ComponentDamageStatus::MediumDamage, ComponentDamageStatus::MajorDamage, ComponentDamageStatus::Destroyed], |v| v as u64), scan: None },
  EnumRow { name: "ComponentVisualSmokeColor", bits: 8, default: 0, codes: &[("NoSmoke", 0), ("White", 1), ("Gray", 2), ("Black", 3)], actual: || vec![ComponentVisualSmokeColor::NoSmoke as u64, ComponentVisualSmokeColor::White as u64, ComponentVisualSmokeColor::Gray as u64, ComponentVisualSmokeColor::Black as u64], decode: |mut b| { let v = ComponentVisualSmokeColor::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ComponentVisualSmokeColor as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_COMPONENTVISUALSMOKECOLOR[i], b), |mut b| <ComponentVisualSmokeColor as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_COMPONENTVISUALSMOKECOLOR[i]))), pairs: || crate::core::pairs(&[ComponentVisualSmokeColor::NoSmoke, ComponentVisualSmokeColor::White, ComponentVisualSmokeColor::Gray, ComponentVisualSmokeColor::Black], |v| v as u64), scan: None },
  EnumRow { name: "BeamStatusBeamState", bits: 8, default: 0, codes: &[("Active", 0), ("Deactivated", 1)], actual: || vec![BeamStatusBeamState::Active as u64, BeamStatusBeamState::Deactivated as u64], decode: |mut b| { let v = BeamStatusBeamState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <BeamStatusBeamState as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[BeamStatusBeamState::Active, BeamStatusBeamState::Deactivated], |v| v as u64), scan: None },
  EnumRow { name: "EntityAssociationAssociationStatus", bits: 8, default: 0, codes: &[("NotSpecified", 0), ("PhysicalAssociationGeneralObject1", 1), ("FunctionalAssociationGeneral", 2), ("AssociationBroken", 3), ("PhysicalAssociationObject2", 4), ("FunctionalAssociationObject1", 5), ("FunctionalAssociationObject2", 6)], actual: || vec![EntityAssociationAssociationStatus::NotSpecified as u64, EntityAssociationAssociationStatus::PhysicalAssociationGeneralObject1 as u64, EntityAssociationAssociationStatus::FunctionalAssociationGeneral as u64, EntityAssociationAssociationStatus::AssociationBroken as u64, EntityAssociationAssociationStatus::PhysicalAssociationObject2 as u64, EntityAssociationAssociationStatus::FunctionalAssociationObject1 as u64, EntityAssociationAssociationStatus::FunctionalAssociationObject2 as u64], decode: |mut b| { let v = EntityAssociationAssociationStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EntityAssociationAssociationStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EntityAssociationAssociationStatus::NotSpecified, EntityAssociationAssociationStatus::PhysicalAssociationGeneralObject1, EntityAssociationAssociationStatus::FunctionalAssociationGeneral, EntityAssociationAssociationStatus::AssociationBroken, EntityAssociationAssociationStatus::PhysicalAssociationObject2, EntityAssociationAssociationStatus::FunctionalAssociationObject1, EntityAssociationAssociationStatus::FunctionalAssociationObject2], |v| v as u64), scan: None },
  EnumRow { name: "EntityVPRecordChangeIndicator", bits: 8, default: 0, codes: &[("InitialReportorNoChangeSinceLastIssuance", 0), ("ChangeSinceLastIssuance", 1)], actual: || vec![EntityVPRecordChangeIndicator::InitialReportorNoChangeSinceLastIssuance as u64, EntityVPRecordChangeIndicator::ChangeSinceLastIssuance as u64], decode: |mut b| { let v = EntityVPRecordChangeIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EntityVPRecordChangeIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EntityVPRecordChangeIndicator::InitialReportorNoChangeSinceLastIssuance, EntityVPRecordChangeIndicator::ChangeSinceLastIssuance], |v| v as u64), scan: None },
  EnumRow { name: "EntityAssociationGroupMemberType", bits: 8, default: 0, codes: &[("NotPartofaGroup", 0), ("GroupLeader", 1), ("GroupMember", 2), ("FormationLeader", 3), ("FormationMember", 4), ("ConvoyLeader", 5), ("ConvoyMember", 6)], actual: || vec![EntityAssociationGroupMemberType::NotPartofaGroup as u64, EntityAssociationGroupMemberType::GroupLeader as u64, EntityAssociationGroupMemberType::GroupMember as u64, EntityAssociationGroupMemberType::FormationLeader as u64, EntityAssociationGroupMemberType::FormationMember as u64, EntityAssociationGroupMemberType::ConvoyLeader as u64, EntityAssociationGroupMemberType::ConvoyMember as u64], decode: |mut b| { let v = EntityAssociationGroupMemberType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EntityAssociationGroupMemberType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EntityAssociationGroupMemberType::NotPartofaGroup, EntityAssociationGroupMemberType::GroupLeader, EntityAssociationGroupMemberType::GroupMember, EntityAssociationGroupMemberType::FormationLeader, EntityAssociationGroupMemberType::FormationMember, EntityAssociationGroupMemberType::ConvoyLeader, EntityAssociationGroupMemberType::ConvoyMember], |v| v as u64), scan: None },
  EnumRow { name: "PhysicalAssociationTypeGroups", bits: 8, default: 0, codes: &[("NotSpecified", 0), ("TowedMountedSlingLoad", 1), ("Restrained", 2), ("Mission", 3), ("OtherConnections", 4)], actual: || vec![PhysicalAssociationTypeGroups::NotSpecified as u64, PhysicalAssociationTypeGroups::TowedMountedSlingLoad as u64, PhysicalAssociationTypeGroups::Restrained as u64, PhysicalAssociationTypeGroups::Mission as u64, PhysicalAssociationTypeGroups::OtherConnections as u64], decode: |mut b| { let v = PhysicalAssociationTypeGroups::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PhysicalAssociationTypeGroups as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PhysicalAssociationTypeGroups::NotSpecified, PhysicalAssociationTypeGroups::TowedMountedSlingLoad, PhysicalAssociationTypeGroups::Restrained, PhysicalAssociationTypeGroups::Mission, PhysicalAssociationTypeGroups::OtherConnections], |v| v as u64), scan: None },
  EnumRow { name: "EntityAssociationPhysicalAssociationType", bits: 8, default: 0, codes: &[("NotSpecified", 0), ("TowedinAir", 1), ("TowedonLand", 2), ("TowedonWaterSurface", 3), ("TowedUnderwater", 4), ("MountedAttached", 5), ("MountedUnattachedandUnsupported", 6), ("MountedUnattachedandSupported", 7), ("TowedinAirCenterHook", 8), ("TowedinAirForwardHook", 9), ("TowedinAirAftHook", 10), ("TowedinAirTandemHookForeAndAft", 11), ("TowedinAirMismanagedTandemForeAndCenter", 12), ("TowedinAirMismanagedTandemCenterAndAft", 13), ("TowedinAirAllHooks", 14), ("Hoisted", 15), ("RestrainedtoaLifeform", 30), ("RestrainedtoaPlatform", 31), ("RestrainedtoanObject", 32), ("RefuelingOperation", 61), ("SearchandRescueBasket", 62), ("SearchandRescueRescueCollar", 63), ("EngagementObject2isBeingEngaged", 64), ("ReturnToBaseObject2istheDestinationObject", 65), ("LinebetweenCommunicationTowers", 90), ("LineBetweenPowerTowers", 91), ("Indoors", 92), ("TopSurface", 93)], actual: || vec![EntityAssociationPhysicalAssociationType::NotSpecified as u64, EntityAssociationPhysicalAssociationType::TowedinAir as u64, EntityAssociationPhysicalAssociationType::TowedonLand as u64, EntityAssociationPhysicalAssociationType::TowedonWaterSurface as u64, EntityAssociationPhysicalAssociationType::TowedUnderwater as u64, EntityAssociationPhysicalAssociationType::MountedAttached as u64, EntityAssociationPhysicalAssociationType::MountedUnattachedandUnsupported as u64, EntityAssociationPhysicalAssociationType::MountedUnattachedandSupported as u64, EntityAssociationPhysicalAssociationType::TowedinAirCenterHook as u64, EntityAssociationPhysicalAssociationType::TowedinAirForwardHook as u64, EntityAssociationPhysicalAssociationType::TowedinAirAftHook as u64, EntityAssociationPhysicalAssociationType::TowedinAirTandemHookForeAndAft as u64, EntityAssociationPhysicalAssociationType::TowedinAirMismanagedTandemForeAndCenter as u64, EntityAssociationPhysicalAssociationType::TowedinAirMismanagedTandemCenterAndAft as u64, EntityAssociationPhysicalAssociationType::TowedinAirAllHooks as u64, EntityAssociationPhysicalAssociationType::Hoisted as u64, EntityAssociationPhysicalAssociationType::RestrainedtoaLifeform as u64, EntityAssociationPhysicalAssociationType::RestrainedtoaPlatform as u64, EntityAssociationPhysicalAssociationType::RestrainedtoanObject as u64, EntityAssociationPhysicalAssociationType::RefuelingOperation as u64, EntityAssociationPhysicalAssociationType::SearchandRescueBasket as u64, EntityAssociationPhysicalAssociationType::SearchandRescueRescueCollar as u64, EntityAssociationPhysicalAssociationType::EngagementObject2isBeingEngaged as u64, EntityAssociationPhysicalAssociationType::ReturnToBaseObject2istheDestinationObject as u64, EntityAssociationPhysicalAssociationType::LinebetweenCommunicationTowers as u64, EntityAssociationPhysicalAssociationType::LineBetweenPowerTowers as u64, EntityAssociationPhysicalAssociationType::Indoors as u64, EntityAssociationPhysicalAssociationType::TopSurface as u64], decode: |mut b| { let v = EntityAssociationPhysicalAssociationType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EntityAssociationPhysicalAssociationType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EntityAssociationPhysicalAssociationType::NotSpecified, EntityAssociationPhysicalAssociationType::TowedinAir, EntityAssociationPhysicalAssociationType::TowedonLand, EntityAssociationPhysicalAssociationType::TowedonWaterSurface, EntityAssociationPhysicalAssociationType::TowedUnderwater, EntityAssociationPhysicalAssociationType::MountedAttached, EntityAssociationPhysicalAssociationType::MountedUnattachedandUnsupported, EntityAssociationPhysicalAssociationType::MountedUnattachedandSupported, EntityAssociationPhysicalAssociationType::TowedinAirCenterHook, EntityAssociationPhysicalAssociationType::TowedinAirForwardHook, EntityAssociationPhysicalAssociationType::TowedinAirAftHook, EntityAssociationPhysicalAssociationType::TowedinAirTandemHookForeAndAft, EntityAssociationPhysicalAssociationType::TowedinAirMismanagedTandemForeAndCenter, EntityAssociationPhysicalAssociationType::TowedinAirMismanagedTandemCenterAndAft, EntityAssociationPhysicalAssociationType::TowedinAirAllHooks, EntityAssociationPhysicalAssociationType::Hoisted, EntityAssociationPhysicalAssociationType::RestrainedtoaLifeform, EntityAssociationPhysicalAssociationType::RestrainedtoaPlatform, EntityAssociationPhysicalAssociationType::RestrainedtoanObject, EntityAssociationPhysicalAssociationType::RefuelingOperation, EntityAssociationPhysicalAssociationType::SearchandRescueBasket, EntityAssociationPhysicalAssociationType::SearchandRescueRescueCollar, EntityAssociationPhysicalAssociationType::EngagementObject2isBeingEngaged, EntityAssociationPhysicalAssociationType::ReturnToBaseObject2istheDestinationObject, EntityAssociationPhysicalAssociationType::LinebetweenCommunicationTowers, EntityAssociationPhysicalAssociationType::LineBetweenPowerTowers, EntityAssociationPhysicalAssociationType::Indoors, EntityAssociationPhysicalAssociationType::TopSurface], |v| v as u64), scan: None },
  EnumRow { name: "EntityAssociationPhysicalConnectionType", bits: 8, default: 0, codes: &[("NotSpecified", 0), ("AttachedDirectlytoSurface", 1), ("CableWire", 2), ("Rope", 3), ("Chain", 4), ("PowerLine", 5), ("TelephoneLine", 6), ("CableLine", 7), ("RefuelingDrogue", 8), ("RefuelingBoom", 9), ("Handcuffs", 10), ("InContactWith", 11), ("FastRope", 12)], actual: || vec![EntityAssociationPhysicalConnectionType::NotSpecified as u64, EntityAssociationPhysicalConnectionType::AttachedDirectlytoSurface as u64, EntityAssociationPhysicalConnectionType::CableWire as u64, EntityAssociationPhysicalConnectionType::Rope as u64, EntityAssociationPhysicalConnectionType::Chain as u64, EntityAssociationPhysicalConnectionType::PowerLine as u64, EntityAssociationPhysicalConnectionType::TelephoneLine as u64, EntityAssociationPhysicalConnectionType::CableLine as u64, EntityAssociationPhysicalConnectionType::RefuelingDrogue as u64, EntityAssociationPhysicalConnectionType::RefuelingBoom as u64, EntityAssociationPhysicalConnectionType::Handcuffs as u64, EntityAssociationPhysicalConnectionType::InContactWith as u64, EntityAssociationPhysicalConnectionType::FastRope as u64], decode: |mut b| { let v = EntityAssociationPhysicalConnectionType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EntityAssociationPhysicalConnectionType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EntityAssociationPhysicalConnectionType::NotSpecified, EntityAssociationPhysicalConnectionType::AttachedDirectlytoSurface, EntityAssociationPhysicalConnectionType::CableWire, EntityAssociationPhysicalConnectionType::Rope, EntityAssociationPhysicalConnectionType::Chain, EntityAssociationPhysicalConnectionType::PowerLine, EntityAssociationPhysicalConnectionType::TelephoneLine, EntityAssociationPhysicalConnectionType::CableLine, EntityAssociationPhysicalConnectionType::RefuelingDrogue, EntityAssociationPhysicalConnectionType::RefuelingBoom, EntityAssociationPhysicalConnectionType::Handcuffs, EntityAssociationPhysicalConnectionType::InContactWith, EntityAssociationPhysicalConnectionType::FastRope], |v| v as u64), scan: None },
  EnumRow { name: "SensorRecordSensorTypeOtherActiveSensors", bits: 8, default: 0, codes: &[("Undefined", 0)], actual: || vec![SensorRecordSensorTypeOtherActiveSensors::Undefined as u64], decode: |mut b| { let v = SensorRecordSensorTypeOtherActiveSensors::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SensorRecordSensorTypeOtherActiveSensors as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SensorRecordSensorTypeOtherActiveSensors::Undefined], |v| v as u64), scan: None },
  EnumRow { name: "SensorRecordSensorTypePassiveSensors", bits: 16, default: 60000, codes: &[("ALR400", 60000), ("ANAAR47", 60001), ("ANAAR50", 60002), ("ANAAR54", 60003), ("ANAAR56", 60004), ("ANAAR57", 60005), ("ANALQ142", 60006), ("ANALR45", 60007), ("ANALR46", 60008), ("ANALR56", 60009), ("ANALR59", 60010), ("ANALR64", 60011), ("ANALR66", 60012), ("ANALR67", 60013), ("ANALR69", 60014), ("ANALR73", 60015), ("ANALR76", 60016), ("ANALR91", 60017), ("ANALR93", 60018), ("ANALR94", 60019), ("ANALR801", 60020), ("ANAPR39", 60021), ("ANAYR2", 60022), ("ARI18223", 60023), ("BOW21", 60024), ("ChaparralIRST", 60025), ("FlankerIRST", 60026), ("FoxbatIRST", 60027), ("FoxhoundIRST", 60028), ("FulcrumIRST", 60029), ("HavocIRST", 60030), ("HindIRST", 60031), ("KJ200", 60032), ("KJ8602", 60033), ("L150Pastel", 60034), ("Serval", 60035), ("Sherloc", 60036), ("Sherlocvf", 60037), ("Sirena2", 60038), ("Sirena3", 60039), ("Sirena3M", 60040), ("SkyGuardian", 60041), ("SPO15", 60042), ("SPS200", 60043), ("Tarang", 60044), ("ANAAQ29A", 60045), ("_101KSUMAW", 60046), ("Abrams2GFFLIR", 60047), ("Abrams3GFFLIR", 60048), ("ANAAQ13LANTIRNFLIR", 60049), ("AN_ALR74", 60050), ("AN_ALR90", 60051), ("ANAPR48", 60052), ("ELT156X", 60053), ("_101KSV", 60054), ("TP23ML", 60055), ("GenericFLIR", 60056), ("GenericIRST", 60057), ("GenericMAWS", 60058), ("GenericRWR", 60059), ("L136Mak", 60060), ("LeonardoSASSIRST", 60061), ("OSFIRST", 60062), ("PirateIRST", 60063), ("RECCELITE", 60064), ("ThalesNederlandSiriusIRST", 60065), ("TornadoRWR", 60066), ("TOES521FLIR", 60067), ("SafranVampir_MB", 60068)], actual: || vec![SensorRecordSensorTypePassiveSensors::ALR400 as u64, SensorRecordSensorTypePassiveSensors::ANAAR47 as u64, SensorRecordSensorTypePassiveSensors::ANAAR50 as u64, SensorRecordSensorTypePassiveSensors::ANAAR54 as u64, SensorRecordSensorTypePassiveSensors::ANAAR56 as u64, SensorRecordSensorTypePassiveSensors::ANAAR57 as u64, SensorRecordSensorTypePassiveSensors::ANALQ142 as u64, SensorRecordSensorTypePassiveSensors::ANALR45 as u64, SensorRecordSensorTypePassiveSensors::ANALR46 as u64, SensorRecordSensorTypePassiveSensors::ANALR56 as u64, SensorRecordSensorTypePassiveSensors::ANALR59 as u64, SensorRecordSensorTypePassiveSensors::ANALR64 as u64, SensorRecordSensorTypePassiveSensors::ANALR66 as u64, SensorRecordSensorTypePassiveSensors::ANALR67 as u64, SensorRecordSensorTypePassiveSensors::ANALR69 as u64, SensorRecordSensorTypePassiveSensors::ANALR73 as u64, SensorRecordSensorTypePassiveSensors::ANALR76 as u64, SensorRecordSensorTypePassiveSensors::ANALR91 as u64, SensorRecordSensorTypePassiveSensors::ANALR93 as u64, SensorRecordSensorTypePassiveSensors::ANALR94 as u64, SensorRecordSensorTypePassiveSensors::ANALR801 as u64, SensorRecordSensorTypePassiveSensors::ANAPR39 as u64, SensorRecordSensorTypePassiveSensors::ANAYR2 as u64, SensorRecordSensorTypePassiveSensors::ARI18223 as u64, SensorRecordSensorTypePassiveSensors::BOW21 as u64, SensorRecordSensorTypePassiveSensors::ChaparralIRST as u64, SensorRecordSensorTypePassiveSensors::FlankerIRST as u64, SensorRecordSensorTypePassiveSensors::FoxbatIRST as u64, SensorRecordSensorTypePassiveSensors::FoxhoundIRST as u64, SensorRecordSensorTypePassiveSensors::FulcrumIRST as u64, SensorRecordSensorTypePassiveSensors::HavocIRST as u64, SensorRecordSensorTypePassiveSensors::HindIRST as u64, SensorRecordSensorTypePassiveSensors::KJ200 as u64, SensorRecordSensorTypePassiveSensors::KJ8602 as u64, SensorRecordSensorTypePassiveSensors::L150Pastel as u64, SensorRecordSensorTypePassiveSensors::Serval as u64, SensorRecordSensorTypePassiveSensors::Sherloc as u64, SensorRecordSensorTypePassiveSensors::Sherlocvf as u64, SensorRecordSensorTypePassiveSensors::Sirena2 as u64, SensorRecordSensorTypePassiveSensors::Sirena3 as u64, SensorRecordSensorTypePassiveSensors::Sirena3M as u64, SensorRecordSensorTypePassiveSensors::SkyGuardian as u64, SensorRecordSensorTypePassiveSensors::SPO15 as u64, SensorRecordSensorTypePassiveSensors::SPS200 as u64, SensorRecordSensorTypePassiveSensors::Tarang as u64, SensorRecordSensorTypePassiveSensors::ANAAQ29A as u64, SensorRecordSensorTypePassiveSensors::_101KSUMAW as u64, SensorRecordSensorTypePassiveSensors::Abrams2GFFLIR as u64, SensorRecordSensorTypePassiveSensors::Abrams3GFFLIR as u64, SensorRecordSensorTypePassiveSensors::ANAAQ13LANTIRNFLIR as u64, SensorRecordSensorTypePassiveSensors::AN_ALR74 as u64, SensorRecordSensorTypePassiveSensors::AN_ALR90 as u64, SensorRecordSensorTypePassiveSensors::ANAPR48 as u64, SensorRecordSensorTypePassiveSensors::ELT156X as u64, SensorRecordSensorTypePassiveSensors::_101KSV as u64, SensorRecordSensorTypePassiveSensors::TP23ML as u64, SensorRecordSensorTypePassiveSensors::GenericFLIR as u64, SensorRecordSensorTypePassiveSensors::GenericIRST as u64, SensorRecordSensorTypePassiveSensors::GenericMAWS as u64, SensorRecordSensorTypePassiveSensors::GenericRWR as u64, SensorRecordSensorTypePassiveSensors::L136Mak as u64, SensorRecordSensorTypePassiveSensors::LeonardoSASSIRST as u64, SensorRecordSensorTypePassiveSensors::OSFIRST as u64, SensorRecordSensorTypePassiveSensors::PirateIRST as u64, SensorRecordSensorTypePassiveSensors::RECCELITE as u64, SensorRecordSensorTypePassiveSensors::ThalesNederlandSiriusIRST as u64, SensorRecordSensorTypePassiveSensors::TornadoRWR as u64, SensorRecordSensorTypePassiveSensors::TOES521FLIR as u64, SensorRecordSensorTypePassiveSensors::SafranVampir_MB as u64], decode: |mut b| { let v = SensorRecordSensorTypePassiveSensors::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SensorRecordSensorTypePassiveSensors as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SensorRecordSensorTypePassiveSensors::ALR400, SensorRecordSensorTypePassiveSensors::ANAAR47, SensorRecordSensorTypePassiveSensors::ANAAR50, SensorRecordSensorTypePassiveSensors::ANAAR54, SensorRecordSensorTypePassiveSensors::ANAAR56, SensorRecordSensorTypePassiveSensors::ANAAR57, SensorRecordSensorTypePassiveSensors::ANALQ142, SensorRecordSensorTypePassiveSensors::ANALR45, SensorRecordSensorTypePassiveSensors::ANALR46, SensorRecordSensorTypePassiveSensors::ANALR56, SensorRecordSensorTypePassiveSensors::ANALR59, SensorRecordSensorTypePassiveSensors::ANALR64, SensorRecordSensorTypePassiveSensors::ANALR66, SensorRecordSensorTypePassiveSensors::ANALR67, SensorRecordSensorTypePassiveSensors::ANALR69, SensorRecordSensorTypePassiveSensors::ANALR73, SensorRecordSensorTypePassiveSensors::ANALR76, SensorRecordSensorTypePassiveSensors::ANALR91, SensorRecordSensorTypePassiveSensors::ANALR93, SensorRecordSensorTypePassiveSensors::ANALR94, SensorRecordSensorTypePassiveSensors::ANALR801, SensorRecordSensorTypePassiveSensors::ANAPR39, SensorRecordSensorTypePassiveSensors::ANAYR2, SensorRecordSensorTypePassiveSensors::ARI18223, SensorRecordSensorTypePassiveSensors::BOW21, SensorRecordSensorTypePassiveSensors::ChaparralIRST, SensorRecordSensorTypePassiveSensors::FlankerIRST, SensorRecordSensorTypePassiveSensors::FoxbatIRST, SensorRecordSensorTypePassiveSensors::FoxhoundIRST, SensorRecordSensorTypePassiveSensors::FulcrumIRST, SensorRecordSensorTypePassiveSensors::HavocIRST, SensorRecordSensorTypePassiveSensors::HindIRST, SensorRecordSensorTypePassiveSensors::KJ200, SensorRecordSensorTypePassiveSensors::KJ8602, SensorRecordSensorTypePassiveSensors::L150Pastel, SensorRecordSensorTypePassiveSensors::Serval, SensorRecordSensorTypePassiveSensors::Sherloc, SensorRecordSensorTypePassiveSensors::Sherlocvf, SensorRecordSensorTypePassiveSensors::Sirena2, SensorRecordSensorTypePassiveSensors::Sirena3, SensorRecordSensorTypePassiveSensors::Sirena3M, SensorRecordSensorTypePassiveSensors::SkyGuardian, SensorRecordSensorTypePassiveSensors::SPO15, SensorRecordSensorTypePassiveSensors::SPS200, SensorRecordSensorTypePassiveSensors::Tarang, SensorRecordSensorTypePassiveSensors::ANAAQ29A, SensorRecordSensorTypePassiveSensors::_101KSUMAW, SensorRecordSensorTypePassiveSensors::Abrams2GFFLIR, SensorRecordSensorTypePassiveSensors::Abrams3GFFLIR, SensorRecordSensorTypePassiveSensors::ANAAQ13LANTIRNFLIR, SensorRecordSensorTypePassiveSensors::AN_ALR74, SensorRecordSensorTypePassiveSensors::AN_ALR90, SensorRecordSensorTypePassiveSensors::ANAPR48, SensorRecordSensorTypePassiveSensors::ELT156X, SensorRecordSensorTypePassiveSensors::_101KSV, SensorRecordSensorTypePassiveSensors::TP23ML, SensorRecordSensorTypePassiveSensors::GenericFLIR, SensorRecordSensorTypePassiveSensors::GenericIRST, SensorRecordSensorTypePassiveSensors::GenericMAWS, SensorRecordSensorTypePassiveSensors::GenericRWR, SensorRecordSensorTypePassiveSensors::L136Mak, SensorRecordSensorTypePassiveSensors::LeonardoSASSIRST, SensorRecordSensorTypePassiveSensors::OSFIRST, SensorRecordSensorTypePassiveSensors::PirateIRST, SensorRecordSensorTypePassiveSensors::RECCELITE, SensorRecordSensorTypePassiveSensors::ThalesNederlandSiriusIRST, SensorRecordSensorTypePassiveSensors::TornadoRWR, SensorRecordSensorTypePassiveSensors::TOES521FLIR, SensorRecordSensorTypePassiveSensors::SafranVampir_MB], |v| v as u64), scan: None },
  EnumRow { name: "MunitionExpendableStatus", bits: 8, default: 0, codes: &[("Other", 0), ("Ready", 1), ("Inventory", 2)], actual: || vec![MunitionExpendableStatus::Other as u64, MunitionExpendableStatus::Ready as u64, MunitionExpendableStatus::Inventory as u64], decode: |mut b| { let v = MunitionExpendableStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MunitionExpendableStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MunitionExpendableStatus::Other, MunitionExpendableStatus::Ready, MunitionExpendableStatus::Inventory], |v| v as u64), scan: None },
  EnumRow { name: "FuelMeasurementUnits", bits: 8, default: 0, codes: &[("Other", 0), ("Liter", 1), ("Kilogram", 2)], actual: || vec![FuelMeasurementUnits::Other as u64, FuelMeasurementUnits::Liter as u64, FuelMeasurementUnits::Kilogram as u64], decode: |mut b| { let v = FuelMeasurementUnits::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <FuelMeasurementUnits as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[FuelMeasurementUnits::Other, FuelMeasurementUnits::Liter, FuelMeasurementUnits::Kilogram], |v| v as u64), scan: None },
  EnumRow { name: "FuelLocation", bits: 8, default: 0, codes: &[("Other", 0)], actual: || vec![FuelLocation::Other as u64], decode: |mut b| { let v = FuelLocation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <FuelLocation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[FuelLocation::Other], |v| v as u64), scan: None },
  EnumRow { name: "EntityAssociationAssociationType", bits: 8, default: 0, codes: &[("Other", 0), ("TargetEntity", 1), ("TargetLocation", 2), ("HomeBaseLocation", 3), ("CAPPointLocation", 4), ("FlightLeader", 5), ("FlightMember", 6), ("IPPoint", 7), ("RendezvousPoint", 8), ("OnStationLocation", 9), ("LandingZoneLocation", 10), ("DownedPilot", 11), ("TankerEntitythatIsCurrentlyRefuelingtheTransferredEntity", 12), ("TankerEntitytheTransferredEntityIsHeadedtowardstoRefuel", 13), ("EntityHeadedtowardstoJoinUpWith", 14)], actual: || vec![EntityAssociationAssociationType::Other as u64, EntityAssociationAssociationType::TargetEntity as u64, EntityAssociationAssociationType::TargetLocation as u64, EntityAssociationAssociationType::HomeBaseLocation as u64, EntityAssociationAssociationType::CAPPointLocation as u64, EntityAssociationAssociationType::FlightLeader as u64, EntityAssociationAssociationType::FlightMember as u64, EntityAssociationAssociationType::IPPoint as u64, EntityAssociationAssociationType::RendezvousPoint as u64, EntityAssociationAssociationType::OnStationLocation as u64, EntityAssociationAssociationType::LandingZoneLocation as u64, EntityAssociationAssociationType::DownedPilot as u64, EntityAssociationAssociationType::TankerEntitythatIsCurrentlyRefuelingtheTransferredEntity as u64, EntityAssociationAssociationType::TankerEntitytheTransferredEntityIsHeadedtowardstoRefuel as u64, EntityAssociationAssociationType::EntityHeadedtowardstoJoinUpWith as u64], decode: |mut b| { let v = EntityAssociationAssociationType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <EntityAssociationAssociationType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[EntityAssociationAssociationType::Other, EntityAssociationAssociationType::TargetEntity, EntityAssociationAssociationType::TargetLocation, EntityAssociationAssociationType::HomeBaseLocation, EntityAssociationAssociationType::CAPPointLocation, EntityAssociationAssociationType::FlightLeader, EntityAssociationAssociationType::FlightMember, EntityAssociationAssociationType::IPPoint, EntityAssociationAssociationType::RendezvousPoint, EntityAssociationAssociationType::OnStationLocation, EntityAssociationAssociationType::LandingZoneLocation, EntityAssociationAssociationType::DownedPilot, EntityAssociationAssociationType::TankerEntitythatIsCurrentlyRefuelingtheTransferredEntity, EntityAssociationAssociationType::TankerEntitytheTransferredEntityIsHeadedtowardstoRefuel, EntityAssociationAssociationType::EntityHeadedtowardstoJoinUpWith], |v| v as u64), scan: None },
  EnumRow { name: "SensorOnOffStatus", bits: 8, default: 0, codes: &[("Off", 0), ("On", 1)], actual: || vec![SensorOnOffStatus::Off as u64, SensorOnOffStatus::On as u64], decode: |mut b| { let v = SensorOnOffStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SensorOnOffStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SensorOnOffStatus::Off, SensorOnOffStatus::On], |v| v as u64), scan: None },
  EnumRow { name: "OwnershipStatus", bits: 8, default: 0, codes: &[("Other", 0), ("NewOwner", 1), ("OwnershipQueryResponse", 2), ("OwnershipConflict", 3), ("LocalEntityCancelledAutoResolveConflict", 4), ("LocalEntityCancelledManualResolveConflict", 5), ("LocalEntityCancelledRemoveEntityTCRReceived", 6)], actual: || vec![OwnershipStatus::Other as u64, OwnershipStatus::NewOwner as u64, OwnershipStatus::OwnershipQueryResponse as u64, OwnershipStatus::OwnershipConflict as u64, OwnershipStatus::LocalEntityCancelledAutoResolveConflict as u64, OwnershipStatus::LocalEntityCancelledManualResolveConflict as u64, OwnershipStatus::LocalEntityCancelledRemoveEntityTCRReceived as u64], decode: |mut b| { let v = OwnershipStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <OwnershipStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[OwnershipStatus::Other, OwnershipStatus::NewOwner, OwnershipStatus::OwnershipQueryResponse, OwnershipStatus::OwnershipConflict, OwnershipStatus::LocalEntityCancelledAutoResolveConflict, OwnershipStatus::LocalEntityCancelledManualResolveConflict, OwnershipStatus::LocalEntityCancelledRemoveEntityTCRReceived], |v| v as u64), scan: None },
  EnumRow { name: "RecordREventType", bits: 8, default: 0, codes: &[("Other", 0)], actual: || vec![RecordREventType::Other as u64], decode: |mut b| { let v = RecordREventType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <RecordREventType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[RecordREventType::Other], |v| v as u64), scan: None },
  EnumRow { name: "RecordQueryREventType", bits: 16, default: 0, codes: &[("Periodic", 0), ("InternalEntityStateData", 1)], actual: || vec![RecordQueryREventType::Periodic as u64, RecordQueryREventType::InternalEntityStateData as u64], decode: |mut b| { let v = RecordQueryREventType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <RecordQueryREventType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_RECORDQUERYREVENTTYPE[i], b), |mut b| <RecordQueryREventType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_RECORDQUERYREVENTTYPE[i]))), pairs: || crate::core::pairs(&[RecordQueryREventType::Periodic, RecordQueryREventType::InternalEntityStateData], |v| v as u64), scan: None },
  EnumRow { name: "UAPropulsionPlantConfigurationConfiguration", bits: 8, default: 0, codes: &[("Other", 0), ("DieselElectric", 1), ("Diesel", 2), ("Battery", 3), ("TurbineReduction", 4), ("Steam", 6), ("GasTurbine", 7)], actual: || vec![UAPropulsionPlantConfigurationConfiguration::Other as u64, UAPropulsionPlantConfigurationConfiguration::DieselElectric as u64, UAPropulsionPlantConfigurationConfiguration::Diesel as u64, UAPropulsionPlantConfigurationConfiguration::Battery as u64, UAPropulsionPlantConfigurationConfiguration::TurbineReduction as u64, UAPropulsionPlantConfigurationConfiguration::Steam as u64, UAPropulsionPlantConfigurationConfiguration::GasTurbine as u64], decode: |mut b| { let v = UAPropulsionPlantConfigurationConfiguration::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <UAPropulsionPlantConfigurationConfiguration as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[UAPropulsionPlantConfigurationConfiguration::Other, UAPropulsionPlantConfigurationConfiguration::DieselElectric, UAPropulsionPlantConfigurationConfiguration::Diesel, UAPropulsionPlantConfigurationConfiguration::Battery, UAPropulsionPlantConfigurationConfiguration::TurbineReduction, UAPropulsionPlantConfigurationConfiguration::Steam, UAPropulsionPlantConfigurationConfiguration::GasTurbine], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldStateProtocolMode", bits: 16, default: 0, codes: &[("HeartbeatMode", 0), ("QRPMode", 1)], actual: || vec![MinefieldStateProtocolMode::HeartbeatMode as u64, MinefieldStateProtocolMode::QRPMode as u64], decode: |mut b| { let v = MinefieldStateProtocolMode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldStateProtocolMode as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_MINEFIELDSTATEPROTOCOLMODE[i], b), |mut b| <MinefieldStateProtocolMode as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_MINEFIELDSTATEPROTOCOLMODE[i]))), pairs: || crate::core::pairs(&[MinefieldStateProtocolMode::HeartbeatMode, MinefieldStateProtocolMode::QRPMode], |v| v as u64), scan: None },
  EnumRow { name: "TransponderInterrogatorIndicator", bits: 8, default: 0, codes: &[("Transponder", 0), ("Interrogator", 1)], actual: || vec![TransponderInterrogatorIndicator::Transponder as u64, TransponderInterrogatorIndicator::Interrogator as u64], decode: |mut b| { let v = TransponderInterrogatorIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransponderInterrogatorIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransponderInterrogatorIndicator::Transponder, TransponderInterrogatorIndicator::Interrogator], |v| v as u64), scan: None },
  EnumRow { name: "IFFSimulationMode", bits: 8, default: 0, codes: &[("Regeneration", 0), ("Interactive", 1)], actual: || vec![IFFSimulationMode::Regeneration as u64, IFFSimulationMode::Interactive as u64], decode: |mut b| { let v = IFFSimulationMode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IFFSimulationMode as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IFFSimulationMode::Regeneration, IFFSimulationMode::Interactive], |v| v as u64), scan: None },
  EnumRow { name: "IFFApplicableModes", bits: 8, default: 0, codes: &[("NoApplicableModesData", 0), ("AllModes", 1)], actual: || vec![IFFApplicableModes::NoApplicableModesData as u64, IFFApplicableModes::AllModes as u64], decode: |mut b| { let v = IFFApplicableModes::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IFFApplicableModes as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IFFApplicableModes::NoApplicableModesData, IFFApplicableModes::AllModes], |v| v as u64), scan: None },
  EnumRow { name: "ModeCAltitudeIndicator", bits: 8, default: 0, codes: &[("PositiveAltitudeAboveMSL", 0), ("NegativeAltitudeBelowMSLUseAlternateModeCAltitude", 1)], actual: || vec![ModeCAltitudeIndicator::PositiveAltitudeAboveMSL as u64, ModeCAltitudeIndicator::NegativeAltitudeBelowMSLUseAlternateModeCAltitude as u64], decode: |mut b| { let v = ModeCAltitudeIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ModeCAltitudeIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ModeCAltitudeIndicator::PositiveAltitudeAboveMSL, ModeCAltitudeIndicator::NegativeAltitudeBelowMSLUseAlternateModeCAltitude], |v| v as u64), scan: None },
  EnumRow { name: "TCASACASBasicAdvancedIndicator", bits: 8, default: 0, codes: &[("Basic", 0), ("Advanced", 1)], actual: || vec![TCASACASBasicAdvancedIndicator::Basic as u64, TCASACASBasicAdvancedIndicator::Advanced as u64], decode: |mut b| { let v = TCASACASBasicAdvancedIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TCASACASBasicAdvancedIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TCASACASBasicAdvancedIndicator::Basic, TCASACASBasicAdvancedIndicator::Advanced], |v| v as u64), scan: None },
  EnumRow { name: "TCASACASIndicator", bits: 8, default: 0, codes: &[("TCAS", 0), ("ACAS", 1)], actual: || vec![TCASACASIndicator::TCAS as u64, TCASACASIndicator::ACAS as u64], decode: |mut b| { let v = TCASACASIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TCASACASIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TCASACASIndicator::TCAS, TCASACASIndicator::ACAS], |v| v as u64), scan: None },
  EnumRow { name: "TCASACASSoftwareVersion", bits: 8, default: 0, codes: &[("NoStatement", 0), ("_6_0_2", 1), ("_7_0", 2)], actual: || vec![TCASACASSoftwareVersion::NoStatement as u64, TCASACASSoftwareVersion::_6_0_2 as u64, TCASACASSoftwareVersion::_7_0 as u64], decode: |mut b| { let v = TCASACASSoftwareVersion::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TCASACASSoftwareVersion as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TCASACASSoftwareVersion::NoStatement, TCASACASSoftwareVersion::_6_0_2, TCASACASSoftwareVersion::_7_0], |v| v as u64), scan: None },
  EnumRow { name: "TCASACASType", bits: 8, default: 0, codes: &[("NoStatement", 0), ("ACASI", 1), ("ACASII", 2)], actual: || vec![TCASACASType::NoStatement as u64, TCASACASType::ACASI as u64, TCASACASType::ACASII as u64], decode: |mut b| { let v = TCASACASType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TCASACASType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TCASACASType::NoStatement, TCASACASType::ACASI, TCASACASType::ACASII], |v| v as u64), scan: None },
  EnumRow { name: "TCASIIIType", bits: 8, default: 0, codes: &[("TCASI", 0), ("TCASII", 1)], actual: || vec![TCASIIIType::TCASI as u64, TCASIIIType::TCASII as u64], decode: |mut b| { let v = TCASIIIType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TCASIIIType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TCASIIIType::TCASI, TCASIIIType::TCASII], |v| v as u64), scan: None },
  EnumRow { name: "Mode5IFFMission", bits: 8, default: 0, codes: &[("NoStatement", 0), ("SurveillanceSHORAD", 1), ("SHORADassociatedwithaWeaponsSystem", 2), ("WeaponSystem", 3), ("AirborneandSurfaceSurveillancePlatforms", 4), ("AirborneandSurfaceWeaponsPlatforms", 5), ("GroundtoGround", 6)], actual: || vec![Mode5IFFMission::NoStatement as u64, Mode5IFFMission::SurveillanceSHORAD as u64, Mode5IFFMission::SHORADassociatedwithaWeaponsSystem as u64, Mode5IFFMission::WeaponSystem as u64, Mode5IFFMission::AirborneandSurfaceSurveillancePlatforms as u64, Mode5IFFMission::AirborneandSurfaceWeaponsPlatforms as u64, Mode5IFFMission::GroundtoGround as u64], decode: |mut b| { let v = Mode5IFFMission::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Mode5IFFMission as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Mode5IFFMission::NoStatement, Mode5IFFMission::SurveillanceSHORAD, Mode5IFFMission::SHORADassociatedwithaWeaponsSystem, Mode5IFFMission::WeaponSystem, Mode5IFFMission::AirborneandSurfaceSurveillancePlatforms, Mode5IFFMission::AirborneandSurfaceWeaponsPlatforms, Mode5IFFMission::GroundtoGround], |v| v as u64), scan: None },
  EnumRow { name: "ModeSInterrogatorStatusTransmitState", bits: 8, default: 0, codes: &[("NoStatement", 0), ("RollCall", 1), ("AllCall", 2), ("LockoutOverride", 3), ("TemporaryLockout", 4), ("IntermittentLockout", 5)], actual: || vec![ModeSInterrogatorStatusTransmitState::NoStatement as u64, ModeSInterrogatorStatusTransmitState::RollCall as u64, ModeSInterrogatorStatusTransmitState::AllCall as u64, ModeSInterrogatorStatusTransmitState::LockoutOverride as u64, ModeSInterrogatorStatusTransmitState::TemporaryLockout as u64, ModeSInterrogatorStatusTransmitState::IntermittentLockout as u64], decode: |mut b| { let v = ModeSInterrogatorStatusTransmitState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ModeSInterrogatorStatusTransmitState as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ModeSInterrogatorStatusTransmitState::NoStatement, ModeSInterrogatorStatusTransmitState::RollCall, ModeSInterrogatorStatusTransmitState::AllCall, ModeSInterrogatorStatusTransmitState::LockoutOverride, ModeSInterrogatorStatusTransmitState::TemporaryLockout, ModeSInterrogatorStatusTransmitState::IntermittentLockout], |v| v as u64), scan: None },
  EnumRow { name: "ModeSInterrogatorIdentifierICType", bits: 8, default: 0, codes: &[("II", 0), ("SI", 1)], actual: || vec![ModeSInterrogatorIdentifierICType::II as u64, ModeSInterrogatorIdentifierICType::SI as u64], decode: |mut b| { let v = ModeSInterrogatorIdentifierICType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ModeSInterrogatorIdentifierICType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ModeSInterrogatorIdentifierICType::II, ModeSInterrogatorIdentifierICType::SI], |v| v as u64), scan: None },
  EnumRow { name: "ISLSAntennaType", bits: 8, default: 0, codes: &[("NoStatement", 0), ("MonopulseAntenna", 1)], actual: || vec![ISLSAntennaType::NoStatement as u64, ISLSAntennaType::MonopulseAntenna as u64], decode: |mut b| { let v = ISLSAntennaType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ISLSAntennaType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ISLSAntennaType::NoStatement, ISLSAntennaType::MonopulseAntenna], |v| v as u64), scan: None },
  EnumRow { name: "Mode5Reply", bits: 8, default: 0, codes: &[("NoResponse", 0), ("Valid", 1), ("Invalid", 2), ("UnabletoVerify", 3)], actual: || vec![Mode5Reply::NoResponse as u64, Mode5Reply::Valid as u64, Mode5Reply::Invalid as u64, Mode5Reply::UnabletoVerify as u64], decode: |mut b| { let v = Mode5Reply::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Mode5Reply as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Mode5Reply::NoResponse, Mode5Reply::Valid, Mode5Reply::Invalid, Mode5Reply::UnabletoVerify], |v| v as u64), scan: None },
  EnumRow { name: "AntennaSelection", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Top", 1), ("Bottom", 2), ("Diversity", 3)], actual: || vec![AntennaSelection::NoStatement as u64, AntennaSelection::Top as u64, AntennaSelection::Bottom as u64, AntennaSelection::Diversity as u64], decode: |mut b| { let v = AntennaSelection::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AntennaSelection as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AntennaSelection::NoStatement, AntennaSelection::Top, AntennaSelection::Bottom, AntennaSelection::Diversity], |v| v as u64), scan: None },
  EnumRow { name: "Mode5SquitterType", bits: 8, default: 0, codes: &[("NotCapable", 0), ("Short", 1), ("Extended", 2)], actual: || vec![Mode5SquitterType::NotCapable as u64, Mode5SquitterType::Short as u64, Mode5SquitterType::Extended as u64], decode: |mut b| { let v = Mode5SquitterType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Mode5SquitterType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Mode5SquitterType::NotCapable, Mode5SquitterType::Short, Mode5SquitterType::Extended], |v| v as u64), scan: None },
  EnumRow { name: "Level2SquitterStatus", bits: 8, default: 0, codes: &[("Disabled", 0), ("Enabled", 1)], actual: || vec![Level2SquitterStatus::Disabled as u64, Level2SquitterStatus::Enabled as u64], decode: |mut b| { let v = Level2SquitterStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Level2SquitterStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Level2SquitterStatus::Disabled, Level2SquitterStatus::Enabled], |v| v as u64), scan: None },
  EnumRow { name: "ModeSSquitterType", bits: 8, default: 0, codes: &[("NotCapable", 0), ("Acquisition", 1), ("Extended", 2), ("Short", 3)], actual: || vec![ModeSSquitterType::NotCapable as u64, ModeSSquitterType::Acquisition as u64, ModeSSquitterType::Extended as u64, ModeSSquitterType::Short as u64], decode: |mut b| { let v = ModeSSquitterType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ModeSSquitterType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ModeSSquitterType::NotCapable, ModeSSquitterType::Acquisition, ModeSSquitterType::Extended, ModeSSquitterType::Short], |v| v as u64), scan: None },
  EnumRow { name: "ModeSSquitterRecordSource", bits: 8, default: 0, codes: &[("Layer4IFFDataRecords", 0), ("Layer5GICBIFFDataRecords", 1)], actual: || vec![ModeSSquitterRecordSource::Layer4IFFDataRecords as u64, ModeSSquitterRecordSource::Layer5GICBIFFDataRecords as u64], decode: |mut b| { let v = ModeSSquitterRecordSource::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ModeSSquitterRecordSource as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ModeSSquitterRecordSource::Layer4IFFDataRecords, ModeSSquitterRecordSource::Layer5GICBIFFDataRecords], |v| v as u64), scan: None },
  EnumRow { name: "AircraftPresentDomain", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Airborne", 1), ("OnGroundSurface", 2)], actual: || vec![AircraftPresentDomain::NoStatement as u64, AircraftPresentDomain::Airborne as u64, AircraftPresentDomain::OnGroundSurface as u64], decode: |mut b| { let v = AircraftPresentDomain::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AircraftPresentDomain as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AircraftPresentDomain::NoStatement, AircraftPresentDomain::Airborne, AircraftPresentDomain::OnGroundSurface], |v| v as u64), scan: None },
  EnumRow { name: "AircraftIdentificationType", bits: 8, default: 0, codes: &[("NoStatement", 0), ("FlightNumber", 1), ("TailNumber", 2)], actual: || vec![AircraftIdentificationType::NoStatement as u64, AircraftIdentificationType::FlightNumber as u64, AircraftIdentificationType::TailNumber as u64], decode: |mut b| { let v = AircraftIdentificationType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AircraftIdentificationType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AircraftIdentificationType::NoStatement, AircraftIdentificationType::FlightNumber, AircraftIdentificationType::TailNumber], |v| v as u64), scan: None },
  EnumRow { name: "CapabilityReport", bits: 8, default: 0, codes: &[("NoCommunicationsCapability", 0), ("SignifiesatLeastCommAandCommBCapabilityandAbilitytoSetCACode7andontheGround", 4), ("SignifiesatLeastCommAandCommBcapabilityandAbilitytoSetCACode7andAirborne", 5), ("SignifiesatLeastCommAandCommBcapabilityandAbilitytoSetCACode7andEitherAirborneorontheGround", 6), ("SignifiestheDownlinkRequestFieldEquals234or5andEitherAirborneorontheGround", 7), ("NoStatement", 255)], actual: || vec![CapabilityReport::NoCommunicationsCapability as u64, CapabilityReport::SignifiesatLeastCommAandCommBCapabilityandAbilitytoSetCACode7andontheGround as u64, CapabilityReport::SignifiesatLeastCommAandCommBcapabilityandAbilitytoSetCACode7andAirborne as u64, CapabilityReport::SignifiesatLeastCommAandCommBcapabilityandAbilitytoSetCACode7andEitherAirborneorontheGround as u64, CapabilityReport::SignifiestheDownlinkRequestFieldEquals234or5andEitherAirborneorontheGround as u64, CapabilityReport::NoStatement as u64], decode: |mut b| { let v = CapabilityReport::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <CapabilityReport as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[CapabilityReport::NoCommunicationsCapability, CapabilityReport::SignifiesatLeastCommAandCommBCapabilityandAbilitytoSetCACode7andontheGround, CapabilityReport::SignifiesatLeastCommAandCommBcapabilityandAbilitytoSetCACode7andAirborne, CapabilityReport::SignifiesatLeastCommAandCommBcapabilityandAbilitytoSetCACode7andEitherAirborneorontheGround, CapabilityReport::SignifiestheDownlinkRequestFieldEquals234or5andEitherAirborneorontheGround, CapabilityReport::NoStatement], |v| v as u64), scan: None },
  EnumRow { name: "NavigationSource", bits: 8, default: 0, codes: &[("NoStatement", 0), ("GPS", 1), ("INS", 2), ("INSGPS", 3)], actual: || vec![NavigationSource::NoStatement as u64, NavigationSource::GPS as u64, NavigationSource::INS as u64, NavigationSource::INSGPS as u64], decode: |mut b| { let v = NavigationSource::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <NavigationSource as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[NavigationSource::NoStatement, NavigationSource::GPS, NavigationSource::INS, NavigationSource::INSGPS], |v| v as u64), scan: None },
  EnumRow { name: "IFFDataRecordAvailable", bits: 8, default: 0, codes: &[("ComputeLocally", 0), ("IFFDataRecordAvailable", 1)], actual: || vec![IFFDataRecordAvailable::ComputeLocally as u64, IFFDataRecordAvailable::IFFDataRecordAvailable as u64], decode: |mut b| { let v = IFFDataRecordAvailable::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IFFDataRecordAvailable as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IFFDataRecordAvailable::ComputeLocally, IFFDataRecordAvailable::IFFDataRecordAvailable], |v| v as u64), scan: None },
  EnumRow { name: "Mode5SAltitudeResolution", bits: 8, default: 0, codes: &[("_100foot", 0), ("_25foot", 1)], actual: || vec![Mode5SAltitudeResolution::_100foot as u64, Mode5SAltitudeResolution::_25foot as u64], decode: |mut b| { let v = Mode5SAltitudeResolution::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Mode5SAltitudeResolution as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Mode5SAltitudeResolution::_100foot, Mode5SAltitudeResolution::_25foot], |v| v as u64), scan: None },
  EnumRow { name: "DeltaMode5SAltitudePositiveNegativeIndicator", bits: 8, default: 0, codes: &[("Positive", 0), ("Negative", 1)], actual: || vec![DeltaMode5SAltitudePositiveNegativeIndicator::Positive as u64, DeltaMode5SAltitudePositiveNegativeIndicator::Negative as u64], decode: |mut b| { let v = DeltaMode5SAltitudePositiveNegativeIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DeltaMode5SAltitudePositiveNegativeIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[DeltaMode5SAltitudePositiveNegativeIndicator::Positive, DeltaMode5SAltitudePositiveNegativeIndicator::Negative], |v| v as u64), scan: None },
  EnumRow { name: "FormatType", bits: 8, default: 0, codes: &[("NoData", 0), ("IdentityFormat", 4), ("SurfaceFormat5meterRNP", 5), ("SurfaceFormat100meterRNP", 6), ("AirborneFormat5meterRNP25footBarometricAltitude", 7), ("AirborneFormat100meterRNP25footBarometricAltitude", 8), ("AirborneFormat0_25nmiRNP25footBarometricAltitude", 9), ("AirborneFormat1_0nmiRNP25footBarometricAltitude", 10), ("AirborneFormat5meterRNP100footBarometricAltitude", 11), ("AirborneFormat100meterRNP100footBarometricAltitude", 12), ("AirborneFormat0_25nmiRNP100footBarometricAltitude", 13), ("AirborneFormat1_0nmiRNP100footBarometricAltitude", 14), ("AirborneFormat5meterRNPGPSHeight", 15), ("AirborneFormat100meterRNPGPSHeight", 16)], actual: || vec![FormatType::NoData as u64, FormatType::IdentityFormat as u64, FormatType::SurfaceFormat5meterRNP as u64, FormatType::SurfaceFormat100meterRNP as u64, FormatType::AirborneFormat5meterRNP25footBarometricAltitude as u64, FormatType::AirborneFormat100meterRNP25footBarometricAltitude as u64, FormatType::AirborneFormat0_25nmiRNP25footBarometricAltitude as u64, FormatType::AirborneFormat1_0nmiRNP25footBarometricAltitude as u64, FormatType::AirborneFormat5meterRNP100footBarometricAltitude as u64, FormatType::AirborneFormat100meterRNP100footBarometricAltitude as u64, FormatType::AirborneFormat0_25nmiRNP100footBarometricAltitude as u64, FormatType::AirborneFormat1_0nmiRNP100footBarometricAltitude as u64, FormatType::AirborneFormat5meterRNPGPSHeight as u64, FormatType::AirborneFormat100meterRNPGPSHeight as u64], decode: |mut b| { let v = FormatType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <FormatType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[FormatType::NoData, FormatType::IdentityFormat, FormatType::SurfaceFormat5meterRNP, FormatType::SurfaceFormat100meterRNP, FormatType::AirborneFormat5meterRNP25footBarometricAltitude, FormatType::AirborneFormat100meterRNP25footBarometricAltitude, FormatType::AirborneFormat0_25nmiRNP25footBarometricAltitude, FormatType::AirborneFormat1_0nmiRNP25footBarometricAltitude, FormatType::AirborneFormat5meterRNP100footBarometricAltitude, FormatType::AirborneFormat100meterRNP100footBarometricAltitude, FormatType::AirborneFormat0_25nmiRNP100footBarometricAltitude, FormatType::AirborneFormat1_0nmiRNP100footBarometricAltitude, FormatType::AirborneFormat5meterRNPGPSHeight, FormatType::AirborneFormat100meterRNPGPSHeight], |v| v as u64), scan: None },
  EnumRow { name: "AircraftAddressSource", bits: 8, default: 0, codes: &[("ModeSAircraftAddressFieldValue", 0), ("GICBIFFDataRecordAvailable", 1)], actual: || vec![AircraftAddressSource::ModeSAircraftAddressFieldValue as u64, AircraftAddressSource::GICBIFFDataRecordAvailable as u64], decode: |mut b| { let v = AircraftAddressSource::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AircraftAddressSource as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AircraftAddressSource::ModeSAircraftAddressFieldValue, AircraftAddressSource::GICBIFFDataRecordAvailable], |v| v as u64), scan: None },
  EnumRow { name: "SurveillanceStatus", bits: 8, default: 0, codes: &[("NoInformation", 0), ("EmergencyLossofCommunications", 1), ("SPI", 2), ("ATCRBSCodeChange", 3)], actual: || vec![SurveillanceStatus::NoInformation as u64, SurveillanceStatus::EmergencyLossofCommunications as u64, SurveillanceStatus::SPI as u64, SurveillanceStatus::ATCRBSCodeChange as u64], decode: |mut b| { let v = SurveillanceStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SurveillanceStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SurveillanceStatus::NoInformation, SurveillanceStatus::EmergencyLossofCommunications, SurveillanceStatus::SPI, SurveillanceStatus::ATCRBSCodeChange], |v| v as u64), scan: None },
  EnumRow { name: "TurnRateSource", bits: 8, default: 0, codes: &[("ComputeLocally", 0), ("LessThan1DegreeTurnorNotTurning", 1), ("_1DegreeorGreaterTurnRate", 2)], actual: || vec![TurnRateSource::ComputeLocally as u64, TurnRateSource::LessThan1DegreeTurnorNotTurning as u64, TurnRateSource::_1DegreeorGreaterTurnRate as u64], decode: |mut b| { let v = TurnRateSource::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TurnRateSource as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TurnRateSource::ComputeLocally, TurnRateSource::LessThan1DegreeTurnorNotTurning, TurnRateSource::_1DegreeorGreaterTurnRate], |v| v as u64), scan: None },
  EnumRow { name: "TimeTypeSource", bits: 8, default: 0, codes: &[("ComputeLocally", 0), ("EvenSecond", 1), ("OddSecond", 2)], actual: || vec![TimeTypeSource::ComputeLocally as u64, TimeTypeSource::EvenSecond as u64, TimeTypeSource::OddSecond as u64], decode: |mut b| { let v = TimeTypeSource::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TimeTypeSource as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TimeTypeSource::ComputeLocally, TimeTypeSource::EvenSecond, TimeTypeSource::OddSecond], |v| v as u64), scan: None },
  EnumRow { name: "AircraftTypeWake", bits: 8, default: 0, codes: &[("NoStatement", 0)], actual: || vec![AircraftTypeWake::NoStatement as u64], decode: |mut b| { let v = AircraftTypeWake::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AircraftTypeWake as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AircraftTypeWake::NoStatement], |v| v as u64), scan: None },
  EnumRow { name: "DataCategory", bits: 8, default: 0, codes: &[("NoStatement", 0), ("FunctionalData", 1), ("TransponderInterrogatorDataLinkMessages", 2)], actual: || vec![DataCategory::NoStatement as u64, DataCategory::FunctionalData as u64, DataCategory::TransponderInterrogatorDataLinkMessages as u64], decode: |mut b| { let v = DataCategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DataCategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[DataCategory::NoStatement, DataCategory::FunctionalData, DataCategory::TransponderInterrogatorDataLinkMessages], |v| v as u64), scan: None },
  EnumRow { name: "TILinkType", bits: 8, default: 0, codes: &[("NotUsed", 0), ("GroundInitiatedCommunicationsB", 1), ("AutomaticDependentSurveillance", 2), ("GlobalNavigationSatelliteSystem", 3), ("DataLinkInitiationCapability", 4), ("AircraftCommunicationsAddressingandReportingSystem", 5), ("ATCCommunicationsManagement", 6), ("VHFDigitalLink", 7), ("AeronauticalTelecommunicationNetwork", 8), ("ModeSelect", 9), ("AirborneCollisionAvoidanceSystems", 10), ("TrafficCollisionAvoidanceSystems", 11), ("AutomaticDependentSurveillanceB", 12)], actual: || vec![TILinkType::NotUsed as u64, TILinkType::GroundInitiatedCommunicationsB as u64, TILinkType::AutomaticDependentSurveillance as u64, TILinkType::GlobalNavigationSatelliteSystem as u64, TILinkType::DataLinkInitiationCapability as u64, TILinkType::AircraftCommunicationsAddressingandReportingSystem as u64, TILinkType::ATCCommunicationsManagement as u64, TILinkType::VHFDigitalLink as u64, TILinkType::AeronauticalTelecommunicationNetwork as u64, TILinkType::ModeSelect as u64, TILinkType::AirborneCollisionAvoidanceSystems as u64, TILinkType::TrafficCollisionAvoidanceSystems as u64, TILinkType::AutomaticDependentSurveillanceB as u64], decode: |mut b| { let v = TILinkType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TILinkType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TILinkType::NotUsed, TILinkType::GroundInitiatedCommunicationsB, TILinkType::AutomaticDependentSurveillance, TILinkType::GlobalNavigationSatelliteSystem, TILinkType::DataLinkInitiationCapability, TILinkType::AircraftCommunicationsAddressingandReportingSystem, TILinkType::ATCCommunicationsManagement, TILinkType::VHFDigitalLink, TILinkType::AeronauticalTelecommunicationNetwork, TILinkType::ModeSelect, TILinkType::AirborneCollisionAvoidanceSystems, TILinkType::TrafficCollisionAvoidanceSystems, TILinkType::AutomaticDependentSurveillanceB], |v| v as u64), scan: None },
  EnumRow { name: "AntennaStatus", bits: 8, default: 0, codes: &[("NoStatement", 0), ("NotAbletoEmit", 1), ("AbletoEmit", 2)], actual: || vec![AntennaStatus::NoStatement as u64, AntennaStatus::NotAbletoEmit as u64, AntennaStatus::AbletoEmit as u64], decode: |mut b| { let v = AntennaStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AntennaStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AntennaStatus::NoStatement, AntennaStatus::NotAbletoEmit, AntennaStatus::AbletoEmit], |v| v as u64), scan: None },
  EnumRow { name: "TransmissionIndicator", bits: 8, default: 0, codes: &[("NoStatement", 0), ("OriginalInterrogation", 1), ("InterrogationReply", 2), ("SquitterTransmission", 3)], actual: || vec![TransmissionIndicator::NoStatement as u64, TransmissionIndicator::OriginalInterrogation as u64, TransmissionIndicator::InterrogationReply as u64, TransmissionIndicator::SquitterTransmission as u64], decode: |mut b| { let v = TransmissionIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmissionIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmissionIndicator::NoStatement, TransmissionIndicator::OriginalInterrogation, TransmissionIndicator::InterrogationReply, TransmissionIndicator::SquitterTransmission], |v| v as u64), scan: None },
  EnumRow { name: "ReplyAmplification", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Complete", 1), ("Limted", 2), ("UnabletoRespond", 3)], actual: || vec![ReplyAmplification::NoStatement as u64, ReplyAmplification::Complete as u64, ReplyAmplification::Limted as u64, ReplyAmplification::UnabletoRespond as u64], decode: |mut b| { let v = ReplyAmplification::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ReplyAmplification as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ReplyAmplification::NoStatement, ReplyAmplification::Complete, ReplyAmplification::Limted, ReplyAmplification::UnabletoRespond], |v| v as u64), scan: None },
  EnumRow { name: "DEFireFlagsStateUpdateFlag", bits: 8, default: 0, codes: &[("UpdateDuetoHeartbeatTimer", 0), ("StateChange", 1)], actual: || vec![DEFireFlagsStateUpdateFlag::UpdateDuetoHeartbeatTimer as u64, DEFireFlagsStateUpdateFlag::StateChange as u64], decode: |mut b| { let v = DEFireFlagsStateUpdateFlag::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DEFireFlagsStateUpdateFlag as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[DEFireFlagsStateUpdateFlag::UpdateDuetoHeartbeatTimer, DEFireFlagsStateUpdateFlag::StateChange], |v| v as u64), scan: None },
  EnumRow { name: "ComponentVisualDamageStatusSmoke", bits: 8, default: 0, codes: &[("NoSmoke", 0), ("LightSmoke", 1), ("ModerateSmoke", 2), ("HeavySmoke", 3)], actual: || vec![ComponentVisualDamageStatusSmoke::NoSmoke as u64, ComponentVisualDamageStatusSmoke::LightSmoke as u64, ComponentVisualDamageStatusSmoke::ModerateSmoke as u64, ComponentVisualDamageStatusSmoke::HeavySmoke as u64], decode: |mut b| { let v = ComponentVisualDamageStatusSmoke::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ComponentVisualDamageStatusSmoke as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ComponentVisualDamageStatusSmoke::NoSmoke, ComponentVisualDamageStatusSmoke::LightSmoke, ComponentVisualDamageStatusSmoke::ModerateSmoke, ComponentVisualDamageStatusSmoke::HeavySmoke], |v| v as u64), scan: None },
  EnumRow { name: "ComponentVisualDamageStatusSurfaceDamage", bits: 8, default: 0, codes: &[("NormalAppearance", 0), ("LightCharring", 1), ("HeavyCharring", 2), ("OneorMoreHolesBurnedCompletelythroughSurface", 3)], actual: || vec![ComponentVisualDamageStatusSurfaceDamage::NormalAppearance as u64, ComponentVisualDamageStatusSurfaceDamage::LightCharring as u64, ComponentVisualDamageStatusSurfaceDamage::HeavyCharring as u64, ComponentVisualDamageStatusSurfaceDamage::OneorMoreHolesBurnedCompletelythroughSurface as u64], decode: |mut b| { let v = ComponentVisualDamageStatusSurfaceDamage::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ComponentVisualDamageStatusSurfaceDamage as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ComponentVisualDamageStatusSurfaceDamage::NormalAppearance, ComponentVisualDamageStatusSurfaceDamage::LightCharring, ComponentVisualDamageStatusSurfaceDamage::HeavyCharring, ComponentVisualDamageStatusSurfaceDamage::OneorMoreHolesBurnedCompletelythroughSurface], |v| v as u64), scan: None },
  EnumRow { name: "GridAxisDescriptorAxisType", bits: 8, default: 0, codes: &[("RegularAxis", 0), ("IrregularAxis", 1)], actual: || vec![GridAxisDescriptorAxisType::RegularAxis as u64, GridAxisDescriptorAxisType::IrregularAxis as u64], decode: |mut b| { let v = GridAxisDescriptorAxisType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <GridAxisDescriptorAxisType as Default>::default() as u64), field: Some((|i, b| FieldSerialize::serialize_field(&ALL_GRIDAXISDESCRIPTORAXISTYPE[i], b), |mut b| <GridAxisDescriptorAxisType as FieldDeserialize>::deserialize_field(&mut b) as u64, |i| FieldLen::field_len(&ALL_GRIDAXISDESCRIPTORAXISTYPE[i]))), pairs: || crate::core::pairs(&[GridAxisDescriptorAxisType::RegularAxis, GridAxisDescriptorAxisType::IrregularAxis], |v| v as u64), scan: None },
  EnumRow { name: "AppearancePaintScheme", bits: 8, default: 0, codes: &[("UniformColor", 0), ("Camouflage", 1)], actual: || vec![AppearancePaintScheme::UniformColor as u64, AppearancePaintScheme::Camouflage as u64], decode: |mut b| { let v = AppearancePaintScheme::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearancePaintScheme as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearancePaintScheme::UniformColor, AppearancePaintScheme::Camouflage], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceDamage", bits: 8, default: 0, codes: &[("NoDamage", 0), ("SlightDamage", 1), ("ModerateDamage", 2), ("Destroyed", 3)], actual: || vec![AppearanceDamage::NoDamage as u64, AppearanceDamage::SlightDamage as u64, AppearanceDamage::ModerateDamage as u64, AppearanceDamage::Destroyed as u64], decode: |mut b| { let v = AppearanceDamage::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceDamage as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceDamage::NoDamage, AppearanceDamage::SlightDamage, AppearanceDamage::ModerateDamage, AppearanceDamage::Destroyed], |v| v as u64), scan: None },
  EnumRow { name: "Mode5MessageFormatsStatus", bits: 8, default: 0, codes: &[("Capability", 0), ("ActiveInterrogation", 1)], actual: || vec![Mode5MessageFormatsStatus::Capability as u64, Mode5MessageFormatsStatus::ActiveInterrogation as u64], decode: |mut b| { let v = Mode5MessageFormatsStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Mode5MessageFormatsStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Mode5MessageFormatsStatus::Capability, Mode5MessageFormatsStatus::ActiveInterrogation], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceTrailingEffects", bits: 8, default: 0, codes: &[("None", 0), ("Small", 1), ("Medium", 2), ("Large", 3)], actual: || vec![AppearanceTrailingEffects::None as u64, AppearanceTrailingEffects::Small as u64, AppearanceTrailingEffects::Medium as u64, AppearanceTrailingEffects::Large as u64], decode: |mut b| { let v = AppearanceTrailingEffects::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceTrailingEffects as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceTrailingEffects::None, AppearanceTrailingEffects::Small, AppearanceTrailingEffects::Medium, AppearanceTrailingEffects::Large], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceHatch", bits: 8, default: 0, codes: &[("NotApplicable", 0), ("Closed", 1), ("Popped", 2), ("PoppedandPersonIsVisible", 3), ("Open", 4), ("OpenandPersonIsVisible", 5)], actual: || vec![AppearanceHatch::NotApplicable as u64, AppearanceHatch::Closed as u64, AppearanceHatch::Popped as u64, AppearanceHatch::PoppedandPersonIsVisible as u64, AppearanceHatch::Open as u64, AppearanceHatch::OpenandPersonIsVisible as u64], decode: |mut b| { let v = AppearanceHatch::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceHatch as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceHatch::NotApplicable, AppearanceHatch::Closed, AppearanceHatch::Popped, AppearanceHatch::PoppedandPersonIsVisible, AppearanceHatch::Open, AppearanceHatch::OpenandPersonIsVisible], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceLauncherOperational", bits: 8, default: 0, codes: &[("NotRaisedNotOperational", 0), ("RaisedOperational", 1)], actual: || vec![AppearanceLauncherOperational::NotRaisedNotOperational as u64, AppearanceLauncherOperational::RaisedOperational as u64], decode: |mut b| { let v = AppearanceLauncherOperational::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceLauncherOperational as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceLauncherOperational::NotRaisedNotOperational, AppearanceLauncherOperational::RaisedOperational], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceCamouflageType", bits: 8, default: 0, codes: &[("DesertCamouflage", 0), ("WinterCamouflage", 1), ("ForestCamouflage", 2), ("Other", 3)], actual: || vec![AppearanceCamouflageType::DesertCamouflage as u64, AppearanceCamouflageType::WinterCamouflage as u64, AppearanceCamouflageType::ForestCamouflage as u64, AppearanceCamouflageType::Other as u64], decode: |mut b| { let v = AppearanceCamouflageType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceCamouflageType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceCamouflageType::DesertCamouflage, AppearanceCamouflageType::WinterCamouflage, AppearanceCamouflageType::ForestCamouflage, AppearanceCamouflageType::Other], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceConcealedPosition", bits: 8, default: 0, codes: &[("NotConcealed", 0), ("PreparedConcealedPosition", 1)], actual: || vec![AppearanceConcealedPosition::NotConcealed as u64, AppearanceConcealedPosition::PreparedConcealedPosition as u64], decode: |mut b| { let v = AppearanceConcealedPosition::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceConcealedPosition as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceConcealedPosition::NotConcealed, AppearanceConcealedPosition::PreparedConcealedPosition], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceEntityorObjectState", bits: 8, default: 0, codes: &[("Active", 0), ("Deactivated", 1)], actual: || vec![AppearanceEntityorObjectState::Active as u64, AppearanceEntityorObjectState::Deactivated as u64], decode: |mut b| { let v = AppearanceEntityorObjectState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceEntityorObjectState as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceEntityorObjectState::Active, AppearanceEntityorObjectState::Deactivated], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceCanopy", bits: 8, default: 0, codes: &[("NotApplicable", 0), ("SingleCanopySingleTroopDoorClosed", 1), ("FrontandRearCanopyLeftandRightTroopDoorClosed", 2), ("FrontCanopyLeftTroopDoorOpen", 3), ("SingleCanopySingleTroopDoorOpen", 4), ("RearCanopyRightTroopDoorOpen", 5), ("FrontandRearCanopyLeftandRightTroopDoorOpen", 6)], actual: || vec![AppearanceCanopy::NotApplicable as u64, AppearanceCanopy::SingleCanopySingleTroopDoorClosed as u64, AppearanceCanopy::FrontandRearCanopyLeftandRightTroopDoorClosed as u64, AppearanceCanopy::FrontCanopyLeftTroopDoorOpen as u64, AppearanceCanopy::SingleCanopySingleTroopDoorOpen as u64, AppearanceCanopy::RearCanopyRightTroopDoorOpen as u64, AppearanceCanopy::FrontandRearCanopyLeftandRightTroopDoorOpen as u64], decode: |mut b| { let v = AppearanceCanopy::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceCanopy as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceCanopy::NotApplicable, AppearanceCanopy::SingleCanopySingleTroopDoorClosed, AppearanceCanopy::FrontandRearCanopyLeftandRightTroopDoorClosed, AppearanceCanopy::FrontCanopyLeftTroopDoorOpen, AppearanceCanopy::SingleCanopySingleTroopDoorOpen, AppearanceCanopy::RearCanopyRightTroopDoorOpen, AppearanceCanopy::FrontandRearCanopyLeftandRightTroopDoorOpen], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceSubsurfaceHatch", bits: 8, default: 0, codes: &[("NotApplicable", 0), ("HatchIsClosed", 1), ("HatchIsOpen", 4)], actual: || vec![AppearanceSubsurfaceHatch::NotApplicable as u64, AppearanceSubsurfaceHatch::HatchIsClosed as u64, AppearanceSubsurfaceHatch::HatchIsOpen as u64], decode: |mut b| { let v = AppearanceSubsurfaceHatch::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceSubsurfaceHatch as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceSubsurfaceHatch::NotApplicable, AppearanceSubsurfaceHatch::HatchIsClosed, AppearanceSubsurfaceHatch::HatchIsOpen], |v| v as u64), scan: None },
  EnumRow { name: "ActiveInterrogationIndicator", bits: 8, default: 0, codes: &[("NotActive", 0), ("Active", 1)], actual: || vec![ActiveInterrogationIndicator::NotActive as u64, ActiveInterrogationIndicator::Active as u64], decode: |mut b| { let v = ActiveInterrogationIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ActiveInterrogationIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ActiveInterrogationIndicator::NotActive, ActiveInterrogationIndicator::Active], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceLifeformHealth", bits: 8, default: 0, codes: &[("NoInjury", 0), ("SlightInjury", 1), ("ModerateInjury", 2), ("FatalInjury", 3)], actual: || vec![AppearanceLifeformHealth::NoInjury as u64, AppearanceLifeformHealth::SlightInjury as u64, AppearanceLifeformHealth::ModerateInjury as u64, AppearanceLifeformHealth::FatalInjury as u64], decode: |mut b| { let v = AppearanceLifeformHealth::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceLifeformHealth as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceLifeformHealth::NoInjury, AppearanceLifeformHealth::SlightInjury, AppearanceLifeformHealth::ModerateInjury, AppearanceLifeformHealth::FatalInjury], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceLifeFormComplianceStatus", bits: 8, default: 0, codes: &[("NotSpecified", 0), ("Detained", 1), ("Surrender", 2), ("UsingFists", 3), ("VerbalAbuseLevel1", 4), ("VerbalAbuseLevel2", 5), ("VerbalAbuseLevel3", 6), ("PassiveResistanceLevel1", 7), ("PassiveResistanceLevel2", 8), ("PassiveResistanceLevel3", 9), ("UsingNonLethalWeapon1", 10), ("UsingNonLethalWeapon2", 11), ("UsingNonLethalWeapon3", 12), ("UsingNonLethalWeapon4", 13), ("UsingNonLethalWeapon5", 14), ("UsingNonLethalWeapon6", 15)], actual: || vec![AppearanceLifeFormComplianceStatus::NotSpecified as u64, AppearanceLifeFormComplianceStatus::Detained as u64, AppearanceLifeFormComplianceStatus::Surrender as u64, AppearanceLifeFormComplianceStatus::UsingFists as u64, AppearanceLifeFormComplianceStatus::VerbalAbuseLevel1 as u64, AppearanceLifeFormComplianceStatus::VerbalAbuseLevel2 as u64, AppearanceLifeFormComplianceStatus::VerbalAbuseLevel3 as u64, AppearanceLifeFormComplianceStatus::PassiveResistanceLevel1 as u64, AppearanceLifeFormComplianceStatus::PassiveResistanceLevel2 as u64, AppearanceLifeFormComplianceStatus::PassiveResistanceLevel3 as u64, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon1 as u64, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon2 as u64, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon3 as u64, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon4 as u64, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon5 as u64, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon6 as u64], decode: |mut b| { let v = AppearanceLifeFormComplianceStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceLifeFormComplianceStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceLifeFormComplianceStatus::NotSpecified, AppearanceLifeFormComplianceStatus::Detained, AppearanceLifeFormComplianceStatus::Surrender, AppearanceLifeFormComplianceStatus::UsingFists, AppearanceLifeFormComplianceStatus::VerbalAbuseLevel1, AppearanceLifeFormComplianceStatus::VerbalAbuseLevel2, AppearanceLifeFormComplianceStatus::VerbalAbuseLevel3, AppearanceLifeFormComplianceStatus::PassiveResistanceLevel1, AppearanceLifeFormComplianceStatus::PassiveResistanceLevel2, AppearanceLifeFormComplianceStatus::PassiveResistanceLevel3, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon1, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon2, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon3, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon4, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon5, AppearanceLifeFormComplianceStatus::UsingNonLethalWeapon6], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceLifeFormPosture", bits: 8, default: 0, codes: &[("NotSpecified", 0), ("UprightStandingStill", 1), ("UprightWalking", 2), ("UprightRunning", 3), ("Kneeling", 4), ("Prone", 5), ("Crawling", 6), ("Swimming", 7), ("Parachuting", 8), ("Jumping", 9), ("Sitting", 10), ("Squatting", 11), ("Crouching", 12), ("Wading", 13), ("Surrender", 14), ("Detained", 15)], actual: || vec![AppearanceLifeFormPosture::NotSpecified as u64, AppearanceLifeFormPosture::UprightStandingStill as u64, AppearanceLifeFormPosture::UprightWalking as u64, AppearanceLifeFormPosture::UprightRunning as u64, AppearanceLifeFormPosture::Kneeling as u64, AppearanceLifeFormPosture::Prone as u64, AppearanceLifeFormPosture::Crawling as u64, AppearanceLifeFormPosture::Swimming as u64, AppearanceLifeFormPosture::Parachuting as u64, AppearanceLifeFormPosture::Jumping as u64, AppearanceLifeFormPosture::Sitting as u64, AppearanceLifeFormPosture::Squatting as u64, AppearanceLifeFormPosture::Crouching as u64, AppearanceLifeFormPosture::Wading as u64, AppearanceLifeFormPosture::Surrender as u64, AppearanceLifeFormPosture::Detained as u64], decode: |mut b| { let v = AppearanceLifeFormPosture::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceLifeFormPosture as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceLifeFormPosture::NotSpecified, AppearanceLifeFormPosture::UprightStandingStill, AppearanceLifeFormPosture::UprightWalking, AppearanceLifeFormPosture::UprightRunning, AppearanceLifeFormPosture::Kneeling, AppearanceLifeFormPosture::Prone, AppearanceLifeFormPosture::Crawling, AppearanceLifeFormPosture::Swimming, AppearanceLifeFormPosture::Parachuting, AppearanceLifeFormPosture::Jumping, AppearanceLifeFormPosture::Sitting, AppearanceLifeFormPosture::Squatting, AppearanceLifeFormPosture::Crouching, AppearanceLifeFormPosture::Wading, AppearanceLifeFormPosture::Surrender, AppearanceLifeFormPosture::Detained], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceLifeFormWeaponImplement", bits: 8, default: 0, codes: &[("NotPresent", 0), ("Stowed", 1), ("DeployedActive", 2), ("FiringPositionInUse", 3)], actual: || vec![AppearanceLifeFormWeaponImplement::NotPresent as u64, AppearanceLifeFormWeaponImplement::Stowed as u64, AppearanceLifeFormWeaponImplement::DeployedActive as u64, AppearanceLifeFormWeaponImplement::FiringPositionInUse as u64], decode: |mut b| { let v = AppearanceLifeFormWeaponImplement::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceLifeFormWeaponImplement as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceLifeFormWeaponImplement::NotPresent, AppearanceLifeFormWeaponImplement::Stowed, AppearanceLifeFormWeaponImplement::DeployedActive, AppearanceLifeFormWeaponImplement::FiringPositionInUse], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceConcealedMovement", bits: 8, default: 0, codes: &[("OpenMovement", 0), ("RushesBetweenCoveredPositions", 1)], actual: || vec![AppearanceConcealedMovement::OpenMovement as u64, AppearanceConcealedMovement::RushesBetweenCoveredPositions as u64], decode: |mut b| { let v = AppearanceConcealedMovement::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceConcealedMovement as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceConcealedMovement::OpenMovement, AppearanceConcealedMovement::RushesBetweenCoveredPositions], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceEnvironmentalDensity", bits: 8, default: 0, codes: &[("Clear", 0), ("Hazy", 1), ("Dense", 2), ("VeryDense", 3), ("Opaque", 4)], actual: || vec![AppearanceEnvironmentalDensity::Clear as u64, AppearanceEnvironmentalDensity::Hazy as u64, AppearanceEnvironmentalDensity::Dense as u64, AppearanceEnvironmentalDensity::VeryDense as u64, AppearanceEnvironmentalDensity::Opaque as u64], decode: |mut b| { let v = AppearanceEnvironmentalDensity::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceEnvironmentalDensity as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceEnvironmentalDensity::Clear, AppearanceEnvironmentalDensity::Hazy, AppearanceEnvironmentalDensity::Dense, AppearanceEnvironmentalDensity::VeryDense, AppearanceEnvironmentalDensity::Opaque], |v| v as u64), scan: None },
  EnumRow { name: "Mode5PlatformType", bits: 8, default: 0, codes: &[("GroundVehicle", 0), ("AirVehicle", 1)], actual: || vec![Mode5PlatformType::GroundVehicle as u64, Mode5PlatformType::AirVehicle as u64], decode: |mut b| { let v = Mode5PlatformType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Mode5PlatformType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Mode5PlatformType::GroundVehicle, Mode5PlatformType::AirVehicle], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceAntiCollisionDayNight", bits: 8, default: 0, codes: &[("Day", 0), ("Night", 1)], actual: || vec![AppearanceAntiCollisionDayNight::Day as u64, AppearanceAntiCollisionDayNight::Night as u64], decode: |mut b| { let v = AppearanceAntiCollisionDayNight::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceAntiCollisionDayNight as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceAntiCollisionDayNight::Day, AppearanceAntiCollisionDayNight::Night], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceNavigationPositionBrightness", bits: 8, default: 0, codes: &[("Dim", 0), ("Bright", 1)], actual: || vec![AppearanceNavigationPositionBrightness::Dim as u64, AppearanceNavigationPositionBrightness::Bright as u64], decode: |mut b| { let v = AppearanceNavigationPositionBrightness::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceNavigationPositionBrightness as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceNavigationPositionBrightness::Dim, AppearanceNavigationPositionBrightness::Bright], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceSupplyDeployed", bits: 8, default: 0, codes: &[("NotApplicable", 0), ("Stowed", 1), ("Deployed", 2), ("DeployedandActive", 3)], actual: || vec![AppearanceSupplyDeployed::NotApplicable as u64, AppearanceSupplyDeployed::Stowed as u64, AppearanceSupplyDeployed::Deployed as u64, AppearanceSupplyDeployed::DeployedandActive as u64], decode: |mut b| { let v = AppearanceSupplyDeployed::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceSupplyDeployed as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceSupplyDeployed::NotApplicable, AppearanceSupplyDeployed::Stowed, AppearanceSupplyDeployed::Deployed, AppearanceSupplyDeployed::DeployedandActive], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceNVGMode", bits: 8, default: 0, codes: &[("OvertLighting", 0), ("CovertLighting", 1)], actual: || vec![AppearanceNVGMode::OvertLighting as u64, AppearanceNVGMode::CovertLighting as u64], decode: |mut b| { let v = AppearanceNVGMode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceNVGMode as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceNVGMode::OvertLighting, AppearanceNVGMode::CovertLighting], |v| v as u64), scan: None },
  EnumRow { name: "Parachute", bits: 8, default: 0, codes: &[("None", 0), ("Deployed", 1), ("Collapsed", 2), ("MalfunctionStreamer", 3)], actual: || vec![Parachute::None as u64, Parachute::Deployed as u64, Parachute::Collapsed as u64, Parachute::MalfunctionStreamer as u64], decode: |mut b| { let v = Parachute::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Parachute as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Parachute::None, Parachute::Deployed, Parachute::Collapsed, Parachute::MalfunctionStreamer], |v| v as u64), scan: None },
  EnumRow { name: "FlareSmokeColor", bits: 8, default: 0, codes: &[("White", 0), ("Red", 1), ("Green", 2), ("IR", 3)], actual: || vec![FlareSmokeColor::White as u64, FlareSmokeColor::Red as u64, FlareSmokeColor::Green as u64, FlareSmokeColor::IR as u64], decode: |mut b| { let v = FlareSmokeColor::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <FlareSmokeColor as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[FlareSmokeColor::White, FlareSmokeColor::Red, FlareSmokeColor::Green, FlareSmokeColor::IR], |v| v as u64), scan: None },
  EnumRow { name: "FlareSmokeStatus", bits: 8, default: 0, codes: &[("NotIgnited", 0), ("Burning", 1), ("BurnedOut", 2)], actual: || vec![FlareSmokeStatus::NotIgnited as u64, FlareSmokeStatus::Burning as u64, FlareSmokeStatus::BurnedOut as u64], decode: |mut b| { let v = FlareSmokeStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <FlareSmokeStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[FlareSmokeStatus::NotIgnited, FlareSmokeStatus::Burning, FlareSmokeStatus::BurnedOut], |v| v as u64), scan: None },
  EnumRow { name: "SpotChaffStatus", bits: 8, default: 0, codes: &[("None", 0), ("Deployed", 1), ("Malfunction", 2)], actual: || vec![SpotChaffStatus::None as u64, SpotChaffStatus::Deployed as u64, SpotChaffStatus::Malfunction as u64], decode: |mut b| { let v = SpotChaffStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SpotChaffStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SpotChaffStatus::None, SpotChaffStatus::Deployed, SpotChaffStatus::Malfunction], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceObjectGeneralDamage", bits: 8, default: 0, codes: &[("NoDamage", 0), ("Damaged", 1), ("Destroyed", 2)], actual: || vec![AppearanceObjectGeneralDamage::NoDamage as u64, AppearanceObjectGeneralDamage::Damaged as u64, AppearanceObjectGeneralDamage::Destroyed as u64], decode: |mut b| { let v = AppearanceObjectGeneralDamage::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceObjectGeneralDamage as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceObjectGeneralDamage::NoDamage, AppearanceObjectGeneralDamage::Damaged, AppearanceObjectGeneralDamage::Destroyed], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceObjectGeneralPredistributed", bits: 8, default: 0, codes: &[("ObjectCreatedDuringtheExercise", 0), ("ObjectPredistributedPriortoExerciseStart", 1)], actual: || vec![AppearanceObjectGeneralPredistributed::ObjectCreatedDuringtheExercise as u64, AppearanceObjectGeneralPredistributed::ObjectPredistributedPriortoExerciseStart as u64], decode: |mut b| { let v = AppearanceObjectGeneralPredistributed::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceObjectGeneralPredistributed as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceObjectGeneralPredistributed::ObjectCreatedDuringtheExercise, AppearanceObjectGeneralPredistributed::ObjectPredistributedPriortoExerciseStart], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceObjectSpecificBreachState", bits: 8, default: 0, codes: &[("NoBreaching", 0), ("Breached", 1), ("Cleared", 2)], actual: || vec![AppearanceObjectSpecificBreachState::NoBreaching as u64, AppearanceObjectSpecificBreachState::Breached as u64, AppearanceObjectSpecificBreachState::Cleared as u64], decode: |mut b| { let v = AppearanceObjectSpecificBreachState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceObjectSpecificBreachState as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceObjectSpecificBreachState::NoBreaching, AppearanceObjectSpecificBreachState::Breached, AppearanceObjectSpecificBreachState::Cleared], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceObjectSpecificChemicalType", bits: 8, default: 0, codes: &[("Other", 0), ("Hydrochloric", 1), ("WhitePhosphorous", 2), ("RedPhosphorous", 3)], actual: || vec![AppearanceObjectSpecificChemicalType::Other as u64, AppearanceObjectSpecificChemicalType::Hydrochloric as u64, AppearanceObjectSpecificChemicalType::WhitePhosphorous as u64, AppearanceObjectSpecificChemicalType::RedPhosphorous as u64], decode: |mut b| { let v = AppearanceObjectSpecificChemicalType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceObjectSpecificChemicalType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceObjectSpecificChemicalType::Other, AppearanceObjectSpecificChemicalType::Hydrochloric, AppearanceObjectSpecificChemicalType::WhitePhosphorous, AppearanceObjectSpecificChemicalType::RedPhosphorous], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceLinearObjectTankDitchBreach", bits: 8, default: 0, codes: &[("NoBreaching", 0), ("SlightBreaching", 1), ("ModerateBreached", 2), ("Cleared", 3)], actual: || vec![AppearanceLinearObjectTankDitchBreach::NoBreaching as u64, AppearanceLinearObjectTankDitchBreach::SlightBreaching as u64, AppearanceLinearObjectTankDitchBreach::ModerateBreached as u64, AppearanceLinearObjectTankDitchBreach::Cleared as u64], decode: |mut b| { let v = AppearanceLinearObjectTankDitchBreach::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceLinearObjectTankDitchBreach as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceLinearObjectTankDitchBreach::NoBreaching, AppearanceLinearObjectTankDitchBreach::SlightBreaching, AppearanceLinearObjectTankDitchBreach::ModerateBreached, AppearanceLinearObjectTankDitchBreach::Cleared], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceLinearObjectLaneMarkerVisible", bits: 8, default: 0, codes: &[("LeftSideIsVisible", 0), ("RightSideIsVisible", 1), ("BothSidesAreVisible", 2)], actual: || vec![AppearanceLinearObjectLaneMarkerVisible::LeftSideIsVisible as u64, AppearanceLinearObjectLaneMarkerVisible::RightSideIsVisible as u64, AppearanceLinearObjectLaneMarkerVisible::BothSidesAreVisible as u64], decode: |mut b| { let v = AppearanceLinearObjectLaneMarkerVisible::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceLinearObjectLaneMarkerVisible as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceLinearObjectLaneMarkerVisible::LeftSideIsVisible, AppearanceLinearObjectLaneMarkerVisible::RightSideIsVisible, AppearanceLinearObjectLaneMarkerVisible::BothSidesAreVisible], |v| v as u64), scan: None },
  EnumRow { name: "AppearanceObjectGeneralIEDPresent", bits: 8, default: 0, codes: &[("None", 0), ("Visible", 1), ("PartiallyHidden", 2), ("CompletelyHidden", 3)], actual: || vec![AppearanceObjectGeneralIEDPresent::None as u64, AppearanceObjectGeneralIEDPresent::Visible as u64, AppearanceObjectGeneralIEDPresent::PartiallyHidden as u64, AppearanceObjectGeneralIEDPresent::CompletelyHidden as u64], decode: |mut b| { let v = AppearanceObjectGeneralIEDPresent::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AppearanceObjectGeneralIEDPresent as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AppearanceObjectGeneralIEDPresent::None, AppearanceObjectGeneralIEDPresent::Visible, AppearanceObjectGeneralIEDPresent::PartiallyHidden, AppearanceObjectGeneralIEDPresent::CompletelyHidden], |v| v as u64), scan: None },
  EnumRow { name: "Mode5LevelSelection", bits: 8, default: 0, codes: &[("Mode5Level1", 0), ("Mode5Level2", 1)], actual: || vec![Mode5LevelSelection::Mode5Level1 as u64, Mode5LevelSelection::Mode5Level2 as u64], decode: |mut b| { let v = Mode5LevelSelection::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Mode5LevelSelection as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Mode5LevelSelection::Mode5Level1, Mode5LevelSelection::Mode5Level2], |v| v as u64), scan: None },
  EnumRow { name: "SupplyFuelType", bits: 8, default: 0, codes: &[("Other", 0), ("Gasoline", 1), ("DieselFuel", 2), ("JP4", 3), ("FuelOil", 4), ("JP8", 5), ("FogOil", 6), ("MultiSpectralFogOil", 7), ("JP5", 8), ("JPTS", 9), ("TS1", 10)], actual: || vec![SupplyFuelType::Other as u64, SupplyFuelType::Gasoline as u64, SupplyFuelType::DieselFuel as u64, SupplyFuelType::JP4 as u64, SupplyFuelType::FuelOil as u64, SupplyFuelType::JP8 as u64, SupplyFuelType::FogOil as u64, SupplyFuelType::MultiSpectralFogOil as u64, SupplyFuelType::JP5 as u64, SupplyFuelType::JPTS as u64, SupplyFuelType::TS1 as u64], decode: |mut b| { let v = SupplyFuelType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SupplyFuelType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SupplyFuelType::Other, SupplyFuelType::Gasoline, SupplyFuelType::DieselFuel, SupplyFuelType::JP4, SupplyFuelType::FuelOil, SupplyFuelType::JP8, SupplyFuelType::FogOil, SupplyFuelType::MultiSpectralFogOil, SupplyFuelType::JP5, SupplyFuelType::JPTS, SupplyFuelType::TS1], |v| v as u64), scan: None },
  EnumRow { name: "SensorTypeSource", bits: 8, default: 0, codes: &[("OtherActiveSensors", 0), ("Electromagnetic", 1), ("PassiveSensors", 2), ("MinefieldSensors", 3), ("UnderwaterAcoustics", 4), ("Lasers", 5)], actual: || vec![SensorTypeSource::OtherActiveSensors as u64, SensorTypeSource::Electromagnetic as u64, SensorTypeSource::PassiveSensors as u64, SensorTypeSource::MinefieldSensors as u64, SensorTypeSource::UnderwaterAcoustics as u64, SensorTypeSource::Lasers as u64], decode: |mut b| { let v = SensorTypeSource::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SensorTypeSource as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SensorTypeSource::OtherActiveSensors, SensorTypeSource::Electromagnetic, SensorTypeSource::PassiveSensors, SensorTypeSource::MinefieldSensors, SensorTypeSource::UnderwaterAcoustics, SensorTypeSource::Lasers], |v| v as u64), scan: None },
  EnumRow { name: "AttachedPartDetachedIndicator", bits: 8, default: 0, codes: &[("Attached", 0), ("Detached", 1)], actual: || vec![AttachedPartDetachedIndicator::Attached as u64, AttachedPartDetachedIndicator::Detached as u64], decode: |mut b| { let v = AttachedPartDetachedIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AttachedPartDetachedIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AttachedPartDetachedIndicator::Attached, AttachedPartDetachedIndicator::Detached], |v| v as u64), scan: None },
  EnumRow { name: "IntercomControlCommunicationsClass", bits: 8, default: 0, codes: &[("SimulatedCommunicationsChannel", 0), ("SimulationSupportCommunicationsChannel", 1)], actual: || vec![IntercomControlCommunicationsClass::SimulatedCommunicationsChannel as u64, IntercomControlCommunicationsClass::SimulationSupportCommunicationsChannel as u64], decode: |mut b| { let v = IntercomControlCommunicationsClass::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IntercomControlCommunicationsClass as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IntercomControlCommunicationsClass::SimulatedCommunicationsChannel, IntercomControlCommunicationsClass::SimulationSupportCommunicationsChannel], |v| v as u64), scan: None },
  EnumRow { name: "DISLiveEntitySubprotocolNumber", bits: 8, default: 0, codes: &[("NoSubprotocol", 0)], actual: || vec![DISLiveEntitySubprotocolNumber::NoSubprotocol as u64], decode: |mut b| { let v = DISLiveEntitySubprotocolNumber::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DISLiveEntitySubprotocolNumber as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[DISLiveEntitySubprotocolNumber::NoSubprotocol], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldAppearanceMinefieldType", bits: 8, default: 0, codes: &[("MixedAntiPersonnelandAntiTankMinefield", 0), ("PureAntiPersonnelMinefield", 1), ("PureAntiTankMinefield", 2)], actual: || vec![MinefieldAppearanceMinefieldType::MixedAntiPersonnelandAntiTankMinefield as u64, MinefieldAppearanceMinefieldType::PureAntiPersonnelMinefield as u64, MinefieldAppearanceMinefieldType::PureAntiTankMinefield as u64], decode: |mut b| { let v = MinefieldAppearanceMinefieldType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldAppearanceMinefieldType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldAppearanceMinefieldType::MixedAntiPersonnelandAntiTankMinefield, MinefieldAppearanceMinefieldType::PureAntiPersonnelMinefield, MinefieldAppearanceMinefieldType::PureAntiTankMinefield], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldAppearanceActiveStatus", bits: 8, default: 0, codes: &[("Active", 0), ("Inactive", 1)], actual: || vec![MinefieldAppearanceActiveStatus::Active as u64, MinefieldAppearanceActiveStatus::Inactive as u64], decode: |mut b| { let v = MinefieldAppearanceActiveStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldAppearanceActiveStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldAppearanceActiveStatus::Active, MinefieldAppearanceActiveStatus::Inactive], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldAppearanceLane", bits: 8, default: 0, codes: &[("MinefieldHasActiveLane", 0), ("MinefieldHasanInactiveLane", 1)], actual: || vec![MinefieldAppearanceLane::MinefieldHasActiveLane as u64, MinefieldAppearanceLane::MinefieldHasanInactiveLane as u64], decode: |mut b| { let v = MinefieldAppearanceLane::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldAppearanceLane as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldAppearanceLane::MinefieldHasActiveLane, MinefieldAppearanceLane::MinefieldHasanInactiveLane], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldAppearanceState", bits: 8, default: 0, codes: &[("Active", 0), ("Deactivated", 1)], actual: || vec![MinefieldAppearanceState::Active as u64, MinefieldAppearanceState::Deactivated as u64], decode: |mut b| { let v = MinefieldAppearanceState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldAppearanceState as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldAppearanceState::Active, MinefieldAppearanceState::Deactivated], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldFusingFuseType", bits: 8, default: 0, codes: &[("NoFuse", 0), ("Other", 1), ("Pressure", 2), ("Magnetic", 3), ("TiltRod", 4), ("Command", 5), ("TripWire", 6)], actual: || vec![MinefieldFusingFuseType::NoFuse as u64, MinefieldFusingFuseType::Other as u64, MinefieldFusingFuseType::Pressure as u64, MinefieldFusingFuseType::Magnetic as u64, MinefieldFusingFuseType::TiltRod as u64, MinefieldFusingFuseType::Command as u64, MinefieldFusingFuseType::TripWire as u64], decode: |mut b| { let v = MinefieldFusingFuseType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldFusingFuseType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldFusingFuseType::NoFuse, MinefieldFusingFuseType::Other, MinefieldFusingFuseType::Pressure, MinefieldFusingFuseType::Magnetic, MinefieldFusingFuseType::TiltRod, MinefieldFusingFuseType::Command, MinefieldFusingFuseType::TripWire], |v| v as u64), scan: None },
  EnumRow { name: "Mode5LocationErrors", bits: 8, default: 0, codes: &[("NoLocationErrors", 0), ("IFFDataRecordPresent", 1)], actual: || vec![Mode5LocationErrors::NoLocationErrors as u64, Mode5LocationErrors::IFFDataRecordPresent as u64], decode: |mut b| { let v = Mode5LocationErrors::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Mode5LocationErrors as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Mode5LocationErrors::NoLocationErrors, Mode5LocationErrors::IFFDataRecordPresent], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldPaintSchemeAlgae", bits: 8, default: 0, codes: &[("None", 0), ("Light", 1), ("Moderate", 2), ("Heavy", 3)], actual: || vec![MinefieldPaintSchemeAlgae::None as u64, MinefieldPaintSchemeAlgae::Light as u64, MinefieldPaintSchemeAlgae::Moderate as u64, MinefieldPaintSchemeAlgae::Heavy as u64], decode: |mut b| { let v = MinefieldPaintSchemeAlgae::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldPaintSchemeAlgae as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldPaintSchemeAlgae::None, MinefieldPaintSchemeAlgae::Light, MinefieldPaintSchemeAlgae::Moderate, MinefieldPaintSchemeAlgae::Heavy], |v| v as u64), scan: None },
  EnumRow { name: "MinefieldPaintSchemePaintScheme", bits: 8, default: 0, codes: &[("Other", 0), ("Standard", 1), ("CamouflageDesert", 2), ("CamouflageJungle", 3), ("CamouflageSnow", 4), ("CamouflageGravel", 5), ("CamouflagePavement", 6), ("CamouflageSand", 7), ("NaturalWood", 8), ("Clear", 9), ("Red", 10), ("Blue", 11), ("Green", 12), ("Olive", 13), ("White", 14), ("Tan", 15), ("Black", 16), ("Yellow", 17), ("Brown", 18)], actual: || vec![MinefieldPaintSchemePaintScheme::Other as u64, MinefieldPaintSchemePaintScheme::Standard as u64, MinefieldPaintSchemePaintScheme::CamouflageDesert as u64, MinefieldPaintSchemePaintScheme::CamouflageJungle as u64, MinefieldPaintSchemePaintScheme::CamouflageSnow as u64, MinefieldPaintSchemePaintScheme::CamouflageGravel as u64, MinefieldPaintSchemePaintScheme::CamouflagePavement as u64, MinefieldPaintSchemePaintScheme::CamouflageSand as u64, MinefieldPaintSchemePaintScheme::NaturalWood as u64, MinefieldPaintSchemePaintScheme::Clear as u64, MinefieldPaintSchemePaintScheme::Red as u64, MinefieldPaintSchemePaintScheme::Blue as u64, MinefieldPaintSchemePaintScheme::Green as u64, MinefieldPaintSchemePaintScheme::Olive as u64, MinefieldPaintSchemePaintScheme::White as u64, MinefieldPaintSchemePaintScheme::Tan as u64, MinefieldPaintSchemePaintScheme::Black as u64, MinefieldPaintSchemePaintScheme::Yellow as u64, MinefieldPaintSchemePaintScheme::Brown as u64], decode: |mut b| { let v = MinefieldPaintSchemePaintScheme::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <MinefieldPaintSchemePaintScheme as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[MinefieldPaintSchemePaintScheme::Other, MinefieldPaintSchemePaintScheme::Standard, MinefieldPaintSchemePaintScheme::CamouflageDesert, MinefieldPaintSchemePaintScheme::CamouflageJungle, MinefieldPaintSchemePaintScheme::CamouflageSnow, MinefieldPaintSchemePaintScheme::CamouflageGravel, MinefieldPaintSchemePaintScheme::CamouflagePavement, MinefieldPaintSchemePaintScheme::CamouflageSand, MinefieldPaintSchemePaintScheme::NaturalWood, MinefieldPaintSchemePaintScheme::Clear, MinefieldPaintSchemePaintScheme::Red, MinefieldPaintSchemePaintScheme::Blue, MinefieldPaintSchemePaintScheme::Green, MinefieldPaintSchemePaintScheme::Olive, MinefieldPaintSchemePaintScheme::White, MinefieldPaintSchemePaintScheme::Tan, MinefieldPaintSchemePaintScheme::Black, MinefieldPaintSchemePaintScheme::Yellow, MinefieldPaintSchemePaintScheme::Brown], |v| v as u64), scan: None },
  EnumRow { name: "CoverShroudStatus", bits: 8, default: 0, codes: &[("Closed", 0), ("Opening", 1), ("CoverShroudBlownDetached", 2), ("OpenAttached", 3)], actual: || vec![CoverShroudStatus::Closed as u64, CoverShroudStatus::Opening as u64, CoverShroudStatus::CoverShroudBlownDetached as u64, CoverShroudStatus::OpenAttached as u64], decode: |mut b| { let v = CoverShroudStatus::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <CoverShroudStatus as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[CoverShroudStatus::Closed, CoverShroudStatus::Opening, CoverShroudStatus::CoverShroudBlownDetached, CoverShroudStatus::OpenAttached], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandMotorcycleSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("Scooter", 1), ("SportStreet", 2), ("Cruiser", 3), ("DirtBike", 4), ("Standard", 5), ("Touring", 6), ("DualPurpose", 7)], actual: || vec![PlatformLandMotorcycleSubcategories::Other as u64, PlatformLandMotorcycleSubcategories::Scooter as u64, PlatformLandMotorcycleSubcategories::SportStreet as u64, PlatformLandMotorcycleSubcategories::Cruiser as u64, PlatformLandMotorcycleSubcategories::DirtBike as u64, PlatformLandMotorcycleSubcategories::Standard as u64, PlatformLandMotorcycleSubcategories::Touring as u64, PlatformLandMotorcycleSubcategories::DualPurpose as u64], decode: |mut b| { let v = PlatformLandMotorcycleSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandMotorcycleSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandMotorcycleSubcategories::Other, PlatformLandMotorcycleSubcategories::Scooter, PlatformLandMotorcycleSubcategories::SportStreet, PlatformLandMotorcycleSubcategories::Cruiser, PlatformLandMotorcycleSubcategories::DirtBike, PlatformLandMotorcycleSubcategories::Standard, PlatformLandMotorcycleSubcategories::Touring, PlatformLandMotorcycleSubcategories::DualPurpose], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandCarSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("Generic", 10), ("GenericMiniMicrocar", 11), ("GenericEconomyCompact", 12), ("GenericIntermediateStandard", 13), ("GenericFullPremiumLuxury", 14), ("GenericOversize", 15), ("_2DoorCoupe", 20), ("_2DoorCoupeMiniMicrocar", 21), ("_2DoorCoupeEconomyCompact", 22), ("_2DoorCoupeIntermediateStandard", 23), ("_3DoorHatchback", 30), ("_3DoorHatchbackMiniMicrocar", 31), ("_3DoorHatchbackEconomyCompact", 32), ("_4DoorSedan", 40), ("_4DoorSedanMiniMicrocar", 41), ("_4DoorSedanEconomyCompact", 42), ("_4DoorSedanIntermediateStandard", 43), ("_4DoorSedanFullPremiumLuxury", 44), ("_4DoorSedanOversize", 45), ("_5DoorHatchback", 50), ("_5DoorHatchbackMiniMicrocar", 51), ("_5DoorHatchbackEconomyCompact", 52), ("_5DoorHatchbackIntermediateStandard", 53), ("_5DoorHatchbackFullPremiumLuxury", 54), ("Wagon", 60), ("WagonEconomyCompact", 62), ("WagonIntermediateStandard", 63), ("WagonFullPremiumLuxury", 64), ("Minivan", 70), ("Limousine", 80), ("LimousineFullPremiumLuxury", 84), ("LimousineOversize", 85), ("Sports", 90), ("Convertible", 100), ("ConvertibleMiniMicrocar", 101), ("ConvertibleEconomyCompact", 102), ("ConvertibleIntermediateStandard", 103), ("ConvertibleFullPremiumLuxury", 104), ("SportsUtilityVehicle", 110), ("SportsUtilityVehicleEconomyCompact", 112), ("SportsUtilityVehicleIntermediateStandard", 113), ("SportsUtilityVehicleFullPremiumLuxury", 114), ("SportsUtilityVehicleOversize", 115)], actual: || vec![PlatformLandCarSubcategories::Other as u64, PlatformLandCarSubcategories::Generic as u64, PlatformLandCarSubcategories::GenericMiniMicrocar as u64, PlatformLandCarSubcategories::GenericEconomyCompact as u64, PlatformLandCarSubcategories::GenericIntermediateStandard as u64, PlatformLandCarSubcategories::GenericFullPremiumLuxury as u64, PlatformLandCarSubcategories::GenericOversize as u64, PlatformLandCarSubcategories::_2DoorCoupe as u64, PlatformLandCarSubcategories::_2DoorCoupeMiniMicrocar as u64, PlatformLandCarSubcategories::_2DoorCoupeEconomyCompact as u64, PlatformLandCarSubcategories::_2DoorCoupeIntermediateStandard as u64, PlatformLandCarSubcategories::_3DoorHatchback as u64, PlatformLandCarSubcategories::_3DoorHatchbackMiniMicrocar as u64, PlatformLandCarSubcategories::_3DoorHatchbackEconomyCompact as u64, PlatformLandCarSubcategories::_4DoorSedan as u64, PlatformLandCarSubcategories::_4DoorSedanMiniMicrocar as u64, PlatformLandCarSubcategories::_4DoorSedanEconomyCompact as u64, PlatformLandCarSubcategories::_4DoorSedanIntermediateStandard as u64, PlatformLandCarSubcategories::_4DoorSedanFullPremiumLuxury as u64, PlatformLandCarSubcategories::_4DoorSedanOversize as u64, PlatformLandCarSubcategories::_5DoorHatchback as u64, PlatformLandCarSubcategories::_5DoorHatchbackMiniMicrocar as u64, PlatformLandCarSubcategories::_5DoorHatchbackEconomyCompact as u64, PlatformLandCarSubcategories::_5DoorHatchbackIntermediateStandard as u64, PlatformLandCarSubcategories::_5DoorHatchbackFullPremiumLuxury as u64, PlatformLandCarSubcategories::Wagon as u64, PlatformLandCarSubcategories::WagonEconomyCompact as u64, PlatformLandCarSubcategories::WagonIntermediateStandard as u64, PlatformLandCarSubcategories::WagonFullPremiumLuxury as u64, PlatformLandCarSubcategories::Minivan as u64, PlatformLandCarSubcategories::Limousine as u64, PlatformLandCarSubcategories::LimousineFullPremiumLuxury as u64, PlatformLandCarSubcategories::LimousineOversize as u64, PlatformLandCarSubcategories::Sports as u64, PlatformLandCarSubcategories::Convertible as u64, PlatformLandCarSubcategories::ConvertibleMiniMicrocar as u64, PlatformLandCarSubcategories::ConvertibleEconomyCompact as u64, PlatformLandCarSubcategories::ConvertibleIntermediateStandard as u64, PlatformLandCarSubcategories::ConvertibleFullPremiumLuxury as u64, PlatformLandCarSubcategories::SportsUtilityVehicle as u64, PlatformLandCarSubcategories::SportsUtilityVehicleEconomyCompact as u64, PlatformLandCarSubcategories::SportsUtilityVehicleIntermediateStandard as u64, PlatformLandCarSubcategories::SportsUtilityVehicleFullPremiumLuxury as u64, PlatformLandCarSubcategories::SportsUtilityVehicleOversize as u64], decode: |mut b| { let v = PlatformLandCarSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandCarSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandCarSubcategories::Other, PlatformLandCarSubcategories::Generic, PlatformLandCarSubcategories::GenericMiniMicrocar, PlatformLandCarSubcategories::GenericEconomyCompact, PlatformLandCarSubcategories::GenericIntermediateStandard, PlatformLandCarSubcategories::GenericFullPremiumLuxury, PlatformLandCarSubcategories::GenericOversize, PlatformLandCarSubcategories::_2DoorCoupe, PlatformLandCarSubcategories::_2DoorCoupeMiniMicrocar, PlatformLandCarSubcategories::_2DoorCoupeEconomyCompact, PlatformLandCarSubcategories::_2DoorCoupeIntermediateStandard, PlatformLandCarSubcategories::_3DoorHatchback, PlatformLandCarSubcategories::_3DoorHatchbackMiniMicrocar, PlatformLandCarSubcategories::_3DoorHatchbackEconomyCompact, PlatformLandCarSubcategories::_4DoorSedan, PlatformLandCarSubcategories::_4DoorSedanMiniMicrocar, PlatformLandCarSubcategories::_4DoorSedanEconomyCompact, PlatformLandCarSubcategories::_4DoorSedanIntermediateStandard, PlatformLandCarSubcategories::_4DoorSedanFullPremiumLuxury, PlatformLandCarSubcategories::_4DoorSedanOversize, PlatformLandCarSubcategories::_5DoorHatchback, PlatformLandCarSubcategories::_5DoorHatchbackMiniMicrocar, PlatformLandCarSubcategories::_5DoorHatchbackEconomyCompact, PlatformLandCarSubcategories::_5DoorHatchbackIntermediateStandard, PlatformLandCarSubcategories::_5DoorHatchbackFullPremiumLuxury, PlatformLandCarSubcategories::Wagon, PlatformLandCarSubcategories::WagonEconomyCompact, PlatformLandCarSubcategories::WagonIntermediateStandard, PlatformLandCarSubcategories::WagonFullPremiumLuxury, PlatformLandCarSubcategories::Minivan, PlatformLandCarSubcategories::Limousine, PlatformLandCarSubcategories::LimousineFullPremiumLuxury, PlatformLandCarSubcategories::LimousineOversize, PlatformLandCarSubcategories::Sports, PlatformLandCarSubcategories::Convertible, PlatformLandCarSubcategories::ConvertibleMiniMicrocar, PlatformLandCarSubcategories::ConvertibleEconomyCompact, PlatformLandCarSubcategories::ConvertibleIntermediateStandard, PlatformLandCarSubcategories::ConvertibleFullPremiumLuxury, PlatformLandCarSubcategories::SportsUtilityVehicle, PlatformLandCarSubcategories::SportsUtilityVehicleEconomyCompact, PlatformLandCarSubcategories::SportsUtilityVehicleIntermediateStandard, PlatformLandCarSubcategories::SportsUtilityVehicleFullPremiumLuxury, PlatformLandCarSubcategories::SportsUtilityVehicleOversize], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandBusSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("CommuterFlatNose", 1), ("CommuterSnoutNose", 2), ("Shuttle", 3), ("DoubleDecker", 4), ("Guided", 5), ("Kneeling", 6), ("Midibus", 7), ("Minibus", 8), ("MiniWheelchair", 9), ("Motorcoach", 10), ("PrisonBus", 11), ("Schoolbus", 12), ("SchoolWheelchair", 13), ("Tour", 14), ("TramParkingLot", 15), ("Trolley", 16), ("AirportTransport", 17), ("Articulated", 18)], actual: || vec![PlatformLandBusSubcategories::Other as u64, PlatformLandBusSubcategories::CommuterFlatNose as u64, PlatformLandBusSubcategories::CommuterSnoutNose as u64, PlatformLandBusSubcategories::Shuttle as u64, PlatformLandBusSubcategories::DoubleDecker as u64, PlatformLandBusSubcategories::Guided as u64, PlatformLandBusSubcategories::Kneeling as u64, PlatformLandBusSubcategories::Midibus as u64, PlatformLandBusSubcategories::Minibus as u64, PlatformLandBusSubcategories::MiniWheelchair as u64, PlatformLandBusSubcategories::Motorcoach as u64, PlatformLandBusSubcategories::PrisonBus as u64, PlatformLandBusSubcategories::Schoolbus as u64, PlatformLandBusSubcategories::SchoolWheelchair as u64, PlatformLandBusSubcategories::Tour as u64, PlatformLandBusSubcategories::TramParkingLot as u64, PlatformLandBusSubcategories::Trolley as u64, PlatformLandBusSubcategories::AirportTransport as u64, PlatformLandBusSubcategories::Articulated as u64], decode: |mut b| { let v = PlatformLandBusSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandBusSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandBusSubcategories::Other, PlatformLandBusSubcategories::CommuterFlatNose, PlatformLandBusSubcategories::CommuterSnoutNose, PlatformLandBusSubcategories::Shuttle, PlatformLandBusSubcategories::DoubleDecker, PlatformLandBusSubcategories::Guided, PlatformLandBusSubcategories::Kneeling, PlatformLandBusSubcategories::Midibus, PlatformLandBusSubcategories::Minibus, PlatformLandBusSubcategories::MiniWheelchair, PlatformLandBusSubcategories::Motorcoach, PlatformLandBusSubcategories::PrisonBus, PlatformLandBusSubcategories::Schoolbus, PlatformLandBusSubcategories::SchoolWheelchair, PlatformLandBusSubcategories::Tour, PlatformLandBusSubcategories::TramParkingLot, PlatformLandBusSubcategories::Trolley, PlatformLandBusSubcategories::AirportTransport, PlatformLandBusSubcategories::Articulated], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandSingleUnitCargoTruckSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("PickupTruckMini", 1), ("PickupTruckMidSize", 2), ("PickupTruckFullSize", 3), ("PickupTruckCrewCab", 4), ("PickupTruckExtendedCab", 5), ("PickupTruckLongBed", 6), ("PickupTruckCabForward", 7), ("CargoTruck", 10), ("CargoTruckupto2_5Ton", 11), ("CargoTruckupto5Ton", 12), ("CargoTruckupto7_5Ton", 13), ("CargoTruckupto10Ton", 14), ("CargoTruckover10Ton", 15), ("Tanker", 20), ("SemiTrailerCab", 30), ("Van", 70), ("VanExtended", 71), ("VanCompact", 72), ("VanWheelchair", 73), ("VanDelivery", 74), ("DeliveryTruck", 100), ("DeliveryTruckBox", 101), ("DeliveryTruckFlatbed", 102), ("DeliveryTruckStakeBed", 103), ("MessTruck", 104), ("TruckPalletisedLoadSystem", 105), ("TruckPetroleumOilandLubricants", 106), ("TruckPetroleumOilandLubricantsSurveillance", 107), ("RefrigeratedTruckSmall", 108), ("RefrigeratedTruckMedium", 109), ("RefrigeratedTruckLarge", 110)], actual: || vec![PlatformLandSingleUnitCargoTruckSubcategories::Other as u64, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckMini as u64, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckMidSize as u64, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckFullSize as u64, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckCrewCab as u64, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckExtendedCab as u64, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckLongBed as u64, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckCabForward as u64, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruck as u64, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruckupto2_5Ton as u64, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruckupto5Ton as u64, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruckupto7_5Ton as u64, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruckupto10Ton as u64, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruckover10Ton as u64, PlatformLandSingleUnitCargoTruckSubcategories::Tanker as u64, PlatformLandSingleUnitCargoTruckSubcategories::SemiTrailerCab as u64, PlatformLandSingleUnitCargoTruckSubcategories::Van as u64, PlatformLandSingleUnitCargoTruckSubcategories::VanExtended as u64, PlatformLandSingleUnitCargoTruckSubcategories::VanCompact as u64, PlatformLandSingleUnitCargoTruckSubcategories::VanWheelchair as u64, PlatformLandSingleUnitCargoTruckSubcategories::VanDelivery as u64, PlatformLandSingleUnitCargoTruckSubcategories::DeliveryTruck as u64, PlatformLandSingleUnitCargoTruckSubcategories::DeliveryTruckBox as u64, PlatformLandSingleUnitCargoTruckSubcategories::DeliveryTruckFlatbed as u64, PlatformLandSingleUnitCargoTruckSubcategories::DeliveryTruckStakeBed as u64, PlatformLandSingleUnitCargoTruckSubcategories::MessTruck as u64, PlatformLandSingleUnitCargoTruckSubcategories::TruckPalletisedLoadSystem as u64, PlatformLandSingleUnitCargoTruckSubcategories::TruckPetroleumOilandLubricants as u64, PlatformLandSingleUnitCargoTruckSubcategories::TruckPetroleumOilandLubricantsSurveillance as u64, PlatformLandSingleUnitCargoTruckSubcategories::RefrigeratedTruckSmall as u64, PlatformLandSingleUnitCargoTruckSubcategories::RefrigeratedTruckMedium as u64, PlatformLandSingleUnitCargoTruckSubcategories::RefrigeratedTruckLarge as u64], decode: |mut b| { let v = PlatformLandSingleUnitCargoTruckSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandSingleUnitCargoTruckSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandSingleUnitCargoTruckSubcategories::Other, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckMini, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckMidSize, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckFullSize, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckCrewCab, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckExtendedCab, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckLongBed, PlatformLandSingleUnitCargoTruckSubcategories::PickupTruckCabForward, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruck, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruckupto2_5Ton, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruckupto5Ton, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruckupto7_5Ton, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruckupto10Ton, PlatformLandSingleUnitCargoTruckSubcategories::CargoTruckover10Ton, PlatformLandSingleUnitCargoTruckSubcategories::Tanker, PlatformLandSingleUnitCargoTruckSubcategories::SemiTrailerCab, PlatformLandSingleUnitCargoTruckSubcategories::Van, PlatformLandSingleUnitCargoTruckSubcategories::VanExtended, PlatformLandSingleUnitCargoTruckSubcategories::VanCompact, PlatformLandSingleUnitCargoTruckSubcategories::VanWheelchair, PlatformLandSingleUnitCargoTruckSubcategories::VanDelivery, PlatformLandSingleUnitCargoTruckSubcategories::DeliveryTruck, PlatformLandSingleUnitCargoTruckSubcategories::DeliveryTruckBox, PlatformLandSingleUnitCargoTruckSubcategories::DeliveryTruckFlatbed, PlatformLandSingleUnitCargoTruckSubcategories::DeliveryTruckStakeBed, PlatformLandSingleUnitCargoTruckSubcategories::MessTruck, PlatformLandSingleUnitCargoTruckSubcategories::TruckPalletisedLoadSystem, PlatformLandSingleUnitCargoTruckSubcategories::TruckPetroleumOilandLubricants, PlatformLandSingleUnitCargoTruckSubcategories::TruckPetroleumOilandLubricantsSurveillance, PlatformLandSingleUnitCargoTruckSubcategories::RefrigeratedTruckSmall, PlatformLandSingleUnitCargoTruckSubcategories::RefrigeratedTruckMedium, PlatformLandSingleUnitCargoTruckSubcategories::RefrigeratedTruckLarge], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandSingleUnitUtilityEmergencyTruckSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("AmbulanceTruck", 1), ("FireParamedicTruck", 2), ("AmbulanceAdvancedLifeSupport", 3), ("AmbulancePickupTruck", 4), ("FireEngine", 10), ("AerialLadderFireEngine", 11), ("AirportFireEngine", 12), ("WildlandFireEngine", 13), ("FireChief", 14), ("PolicePaddyWagon", 20), ("PoliceSWAT", 21), ("PoliceBombSquad", 22), ("PolicePickupTruck", 23), ("Hazmat", 30), ("WreckerNormalHookandChain", 40), ("WreckerNormalBoom", 41), ("WreckerNormalWheelLift", 42), ("WreckerNormalFlatbed", 43), ("WreckerNormalIntegrated", 44), ("WreckerHeavyHookandChain", 45), ("WreckerHeavyBoom", 46), ("WreckerHeavyWheelLift", 47), ("WreckerHeavyFlatbed", 48), ("WreckerHeavyIntegrated", 49), ("PostalTruck", 60), ("StreetSweeper", 70), ("StreetSweeperThreeWheeled", 71), ("WasteCollectionOther", 80), ("WasteCollectionFrontLoader", 81), ("WasteCollectionRearLoader", 82), ("WasteCollectionAutomatedSideLoader", 83), ("WasteCollectionPneumaticCollection", 84), ("WasteCollectionGrapple", 85), ("UtilityTruck", 90), ("UtilityTruckwBoom", 91), ("AerialWorkPlatformOther", 100), ("AerialWorkPlatformScissorLift", 101), ("AerialWorkPlatformTelescoping", 102), ("MaintenanceTruck", 120), ("DecontaminationTruck", 121), ("WaterCannonTruck", 122), ("WaterPurificationTruck", 123), ("SmokeGeneratorTruck", 124), ("AutoRickshaw", 150)], actual: || vec![PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::Other as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AmbulanceTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::FireParamedicTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AmbulanceAdvancedLifeSupport as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AmbulancePickupTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::FireEngine as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AerialLadderFireEngine as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AirportFireEngine as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WildlandFireEngine as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::FireChief as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::PolicePaddyWagon as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::PoliceSWAT as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::PoliceBombSquad as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::PolicePickupTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::Hazmat as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerNormalHookandChain as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerNormalBoom as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerNormalWheelLift as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerNormalFlatbed as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerNormalIntegrated as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerHeavyHookandChain as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerHeavyBoom as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerHeavyWheelLift as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerHeavyFlatbed as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerHeavyIntegrated as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::PostalTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::StreetSweeper as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::StreetSweeperThreeWheeled as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionOther as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionFrontLoader as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionRearLoader as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionAutomatedSideLoader as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionPneumaticCollection as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionGrapple as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::UtilityTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::UtilityTruckwBoom as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AerialWorkPlatformOther as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AerialWorkPlatformScissorLift as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AerialWorkPlatformTelescoping as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::MaintenanceTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::DecontaminationTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WaterCannonTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WaterPurificationTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::SmokeGeneratorTruck as u64, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AutoRickshaw as u64], decode: |mut b| { let v = PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandSingleUnitUtilityEmergencyTruckSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::Other, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AmbulanceTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::FireParamedicTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AmbulanceAdvancedLifeSupport, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AmbulancePickupTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::FireEngine, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AerialLadderFireEngine, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AirportFireEngine, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WildlandFireEngine, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::FireChief, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::PolicePaddyWagon, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::PoliceSWAT, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::PoliceBombSquad, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::PolicePickupTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::Hazmat, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerNormalHookandChain, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerNormalBoom, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerNormalWheelLift, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerNormalFlatbed, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerNormalIntegrated, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerHeavyHookandChain, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerHeavyBoom, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerHeavyWheelLift, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerHeavyFlatbed, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WreckerHeavyIntegrated, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::PostalTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::StreetSweeper, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::StreetSweeperThreeWheeled, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionOther, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionFrontLoader, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionRearLoader, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionAutomatedSideLoader, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionPneumaticCollection, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WasteCollectionGrapple, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::UtilityTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::UtilityTruckwBoom, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AerialWorkPlatformOther, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AerialWorkPlatformScissorLift, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AerialWorkPlatformTelescoping, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::MaintenanceTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::DecontaminationTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WaterCannonTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::WaterPurificationTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::SmokeGeneratorTruck, PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::AutoRickshaw], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandMultipleUnitCargoTruckSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("TractorTrailer", 1), ("Tanker", 2)], actual: || vec![PlatformLandMultipleUnitCargoTruckSubcategories::Other as u64, PlatformLandMultipleUnitCargoTruckSubcategories::TractorTrailer as u64, PlatformLandMultipleUnitCargoTruckSubcategories::Tanker as u64], decode: |mut b| { let v = PlatformLandMultipleUnitCargoTruckSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandMultipleUnitCargoTruckSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandMultipleUnitCargoTruckSubcategories::Other, PlatformLandMultipleUnitCargoTruckSubcategories::TractorTrailer, PlatformLandMultipleUnitCargoTruckSubcategories::Tanker], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("FireEngineHookAndLadder", 1)], actual: || vec![PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories::Other as u64, PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories::FireEngineHookAndLadder as u64], decode: |mut b| { let v = PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories::Other, PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories::FireEngineHookAndLadder], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandConstructionSpecialtyVehicleSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("Tug", 1), ("Forklift", 2), ("Loader", 3), ("LoaderBackhoe", 4), ("CraneTractorMounted", 5), ("CraneWheeled", 6), ("Grader", 7), ("RoadRollerOther", 8), ("RoadRollerDoubleDrumSmooth", 9), ("RoadRollerSingleDrumSmooth", 10), ("RoadRollerDoubleDrumSheeps", 11), ("RoadRollerSingleDrumSheeps", 12), ("RoadRollerPneumaticTired", 13), ("ExcavatorOther", 14), ("ExcavatorDragline", 15), ("ExcavatorLongReach", 16), ("ExcavatorMobileTire", 17), ("MiniExcavator", 18), ("ExcavatorGiant", 19), ("BulldozerTractorMounted", 20), ("BulldozerTracked", 21), ("Scraper", 22), ("SkidSteer", 23), ("DumpTruckOther", 24), ("DumpTruckArticulated", 25), ("DumpTruckTransfer", 26), ("DumpTruckSuper", 27), ("DumpTruckOffRoad", 28), ("Paver", 29), ("DrillingMachine", 30), ("ConcreteMixerOther", 31), ("ConcreteMixerRearDischarge", 32), ("ConcreteMixerFrontDischarge", 33), ("ConcreteMixerSixAxle", 34), ("ConcreteMixerLongReachBoom", 35), ("ConcreteMixerVolumetric", 36), ("TrencherChain", 37), ("TrencherRockwheel", 38), ("Snowcat", 39), ("CraneTracked", 40), ("CraneShovel", 41), ("SweeperRotary", 42), ("RollerVibratoryCompactor", 43), ("ForkLiftTruck", 44), ("ForkLiftRoughtTerrain", 45), ("Transloader", 46), ("TruckWaterConstruction", 47), ("TruckFuelDelivery", 48), ("TruckSawmill", 49), ("TruckLineMarkingConstruction", 50), ("TractorIndustrial", 51), ("CompactorHighSpeed", 52), ("TruckDrilling", 53), ("TruckDrillingSupport", 54), ("CraneConstruction", 55)], actual: || vec![PlatformLandConstructionSpecialtyVehicleSubcategories::Other as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::Tug as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::Forklift as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::Loader as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::LoaderBackhoe as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::CraneTractorMounted as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::CraneWheeled as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::Grader as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerOther as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerDoubleDrumSmooth as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerSingleDrumSmooth as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerDoubleDrumSheeps as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerSingleDrumSheeps as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerPneumaticTired as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ExcavatorOther as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ExcavatorDragline as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ExcavatorLongReach as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ExcavatorMobileTire as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::MiniExcavator as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ExcavatorGiant as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::BulldozerTractorMounted as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::BulldozerTracked as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::Scraper as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::SkidSteer as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::DumpTruckOther as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::DumpTruckArticulated as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::DumpTruckTransfer as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::DumpTruckSuper as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::DumpTruckOffRoad as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::Paver as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::DrillingMachine as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerOther as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerRearDischarge as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerFrontDischarge as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerSixAxle as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerLongReachBoom as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerVolumetric as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::TrencherChain as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::TrencherRockwheel as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::Snowcat as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::CraneTracked as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::CraneShovel as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::SweeperRotary as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::RollerVibratoryCompactor as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ForkLiftTruck as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::ForkLiftRoughtTerrain as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::Transloader as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckWaterConstruction as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckFuelDelivery as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckSawmill as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckLineMarkingConstruction as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::TractorIndustrial as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::CompactorHighSpeed as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckDrilling as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckDrillingSupport as u64, PlatformLandConstructionSpecialtyVehicleSubcategories::CraneConstruction as u64], decode: |mut b| { let v = PlatformLandConstructionSpecialtyVehicleSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandConstructionSpecialtyVehicleSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandConstructionSpecialtyVehicleSubcategories::Other, PlatformLandConstructionSpecialtyVehicleSubcategories::Tug, PlatformLandConstructionSpecialtyVehicleSubcategories::Forklift, PlatformLandConstructionSpecialtyVehicleSubcategories::Loader, PlatformLandConstructionSpecialtyVehicleSubcategories::LoaderBackhoe, PlatformLandConstructionSpecialtyVehicleSubcategories::CraneTractorMounted, PlatformLandConstructionSpecialtyVehicleSubcategories::CraneWheeled, PlatformLandConstructionSpecialtyVehicleSubcategories::Grader, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerOther, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerDoubleDrumSmooth, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerSingleDrumSmooth, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerDoubleDrumSheeps, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerSingleDrumSheeps, PlatformLandConstructionSpecialtyVehicleSubcategories::RoadRollerPneumaticTired, PlatformLandConstructionSpecialtyVehicleSubcategories::ExcavatorOther, PlatformLandConstructionSpecialtyVehicleSubcategories::ExcavatorDragline, PlatformLandConstructionSpecialtyVehicleSubcategories::ExcavatorLongReach, PlatformLandConstructionSpecialtyVehicleSubcategories::ExcavatorMobileTire, PlatformLandConstructionSpecialtyVehicleSubcategories::MiniExcavator, PlatformLandConstructionSpecialtyVehicleSubcategories::ExcavatorGiant, PlatformLandConstructionSpecialtyVehicleSubcategories::BulldozerTractorMounted, PlatformLandConstructionSpecialtyVehicleSubcategories::BulldozerTracked, PlatformLandConstructionSpecialtyVehicleSubcategories::Scraper, PlatformLandConstructionSpecialtyVehicleSubcategories::SkidSteer, PlatformLandConstructionSpecialtyVehicleSubcategories::DumpTruckOther, PlatformLandConstructionSpecialtyVehicleSubcategories::DumpTruckArticulated, PlatformLandConstructionSpecialtyVehicleSubcategories::DumpTruckTransfer, PlatformLandConstructionSpecialtyVehicleSubcategories::DumpTruckSuper, PlatformLandConstructionSpecialtyVehicleSubcategories::DumpTruckOffRoad, PlatformLandConstructionSpecialtyVehicleSubcategories::Paver, PlatformLandConstructionSpecialtyVehicleSubcategories::DrillingMachine, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerOther, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerRearDischarge, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerFrontDischarge, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerSixAxle, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerLongReachBoom, PlatformLandConstructionSpecialtyVehicleSubcategories::ConcreteMixerVolumetric, PlatformLandConstructionSpecialtyVehicleSubcategories::TrencherChain, PlatformLandConstructionSpecialtyVehicleSubcategories::TrencherRockwheel, PlatformLandConstructionSpecialtyVehicleSubcategories::Snowcat, PlatformLandConstructionSpecialtyVehicleSubcategories::CraneTracked, PlatformLandConstructionSpecialtyVehicleSubcategories::CraneShovel, PlatformLandConstructionSpecialtyVehicleSubcategories::SweeperRotary, PlatformLandConstructionSpecialtyVehicleSubcategories::RollerVibratoryCompactor, PlatformLandConstructionSpecialtyVehicleSubcategories::ForkLiftTruck, PlatformLandConstructionSpecialtyVehicleSubcategories::ForkLiftRoughtTerrain, PlatformLandConstructionSpecialtyVehicleSubcategories::Transloader, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckWaterConstruction, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckFuelDelivery, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckSawmill, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckLineMarkingConstruction, PlatformLandConstructionSpecialtyVehicleSubcategories::TractorIndustrial, PlatformLandConstructionSpecialtyVehicleSubcategories::CompactorHighSpeed, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckDrilling, PlatformLandConstructionSpecialtyVehicleSubcategories::TruckDrillingSupport, PlatformLandConstructionSpecialtyVehicleSubcategories::CraneConstruction], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandFarmSpecialtyVehicleSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("Tractor", 1), ("HarvesterReaper", 2), ("Skidder", 3), ("Forwarder", 4), ("LawnMowerOther", 5), ("LawnMowerRiding", 6), ("LawnMowerStanding", 7), ("LawnMowerPush", 8)], actual: || vec![PlatformLandFarmSpecialtyVehicleSubcategories::Other as u64, PlatformLandFarmSpecialtyVehicleSubcategories::Tractor as u64, PlatformLandFarmSpecialtyVehicleSubcategories::HarvesterReaper as u64, PlatformLandFarmSpecialtyVehicleSubcategories::Skidder as u64, PlatformLandFarmSpecialtyVehicleSubcategories::Forwarder as u64, PlatformLandFarmSpecialtyVehicleSubcategories::LawnMowerOther as u64, PlatformLandFarmSpecialtyVehicleSubcategories::LawnMowerRiding as u64, PlatformLandFarmSpecialtyVehicleSubcategories::LawnMowerStanding as u64, PlatformLandFarmSpecialtyVehicleSubcategories::LawnMowerPush as u64], decode: |mut b| { let v = PlatformLandFarmSpecialtyVehicleSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandFarmSpecialtyVehicleSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandFarmSpecialtyVehicleSubcategories::Other, PlatformLandFarmSpecialtyVehicleSubcategories::Tractor, PlatformLandFarmSpecialtyVehicleSubcategories::HarvesterReaper, PlatformLandFarmSpecialtyVehicleSubcategories::Skidder, PlatformLandFarmSpecialtyVehicleSubcategories::Forwarder, PlatformLandFarmSpecialtyVehicleSubcategories::LawnMowerOther, PlatformLandFarmSpecialtyVehicleSubcategories::LawnMowerRiding, PlatformLandFarmSpecialtyVehicleSubcategories::LawnMowerStanding, PlatformLandFarmSpecialtyVehicleSubcategories::LawnMowerPush], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandTrailerSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("TrailerFlatbed", 1), ("TrailerContainer", 2), ("TrailerContainerRefrigerated", 3), ("TrailerDouble", 4), ("TrailerAutoTransport", 5), ("TrailerArticulated", 6), ("TrailerTanker", 7), ("TrailerTankerSmall", 8), ("TrailerTankerLarge", 9), ("TrailerTankerGasoline", 10), ("TrailerTankerMilk", 11), ("TrailerTankerWater", 12), ("TrailerTankerSeptic", 13), ("TrailerBoat", 14), ("TrailerBoatSmall", 15), ("TrailerBoatLarge", 16), ("TrailerRecreational", 17), ("TrailerRecreationalConventional", 18), ("TrailerRecreationalTravelExpandable", 19), ("TrailerRecreationalFifthWheelTravel", 20), ("TrailerRecreationalFoldingCamping", 21), ("TrailerRecreationalTruckCamper", 22), ("TrailerAerostatMooringPlatform", 23), ("TrailerHousehold", 24), ("TrailerKitchen", 25), ("TrailerUltraLightAircraft", 26), ("TrailerHeavyEquipment", 27)], actual: || vec![PlatformLandTrailerSubcategories::Other as u64, PlatformLandTrailerSubcategories::TrailerFlatbed as u64, PlatformLandTrailerSubcategories::TrailerContainer as u64, PlatformLandTrailerSubcategories::TrailerContainerRefrigerated as u64, PlatformLandTrailerSubcategories::TrailerDouble as u64, PlatformLandTrailerSubcategories::TrailerAutoTransport as u64, PlatformLandTrailerSubcategories::TrailerArticulated as u64, PlatformLandTrailerSubcategories::TrailerTanker as u64, PlatformLandTrailerSubcategories::TrailerTankerSmall as u64, PlatformLandTrailerSubcategories::TrailerTankerLarge as u64, PlatformLandTrailerSubcategories::TrailerTankerGasoline as u64, PlatformLandTrailerSubcategories::TrailerTankerMilk as u64, PlatformLandTrailerSubcategories::TrailerTankerWater as u64, PlatformLandTrailerSubcategories::TrailerTankerSeptic as u64, PlatformLandTrailerSubcategories::TrailerBoat as u64, PlatformLandTrailerSubcategories::TrailerBoatSmall as u64, PlatformLandTrailerSubcategories::TrailerBoatLarge as u64, PlatformLandTrailerSubcategories::TrailerRecreational as u64, PlatformLandTrailerSubcategories::TrailerRecreationalConventional as u64, PlatformLandTrailerSubcategories::TrailerRecreationalTravelExpandable as u64, PlatformLandTrailerSubcategories::TrailerRecreationalFifthWheelTravel as u64, PlatformLandTrailerSubcategories::TrailerRecreationalFoldingCamping as u64, PlatformLandTrailerSubcategories::TrailerRecreationalTruckCamper as u64, PlatformLandTrailerSubcategories::TrailerAerostatMooringPlatform as u64, PlatformLandTrailerSubcategories::TrailerHousehold as u64, PlatformLandTrailerSubcategories::TrailerKitchen as u64, PlatformLandTrailerSubcategories::TrailerUltraLightAircraft as u64, PlatformLandTrailerSubcategories::TrailerHeavyEquipment as u64], decode: |mut b| { let v = PlatformLandTrailerSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandTrailerSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandTrailerSubcategories::Other, PlatformLandTrailerSubcategories::TrailerFlatbed, PlatformLandTrailerSubcategories::TrailerContainer, PlatformLandTrailerSubcategories::TrailerContainerRefrigerated, PlatformLandTrailerSubcategories::TrailerDouble, PlatformLandTrailerSubcategories::TrailerAutoTransport, PlatformLandTrailerSubcategories::TrailerArticulated, PlatformLandTrailerSubcategories::TrailerTanker, PlatformLandTrailerSubcategories::TrailerTankerSmall, PlatformLandTrailerSubcategories::TrailerTankerLarge, PlatformLandTrailerSubcategories::TrailerTankerGasoline, PlatformLandTrailerSubcategories::TrailerTankerMilk, PlatformLandTrailerSubcategories::TrailerTankerWater, PlatformLandTrailerSubcategories::TrailerTankerSeptic, PlatformLandTrailerSubcategories::TrailerBoat, PlatformLandTrailerSubcategories::TrailerBoatSmall, PlatformLandTrailerSubcategories::TrailerBoatLarge, PlatformLandTrailerSubcategories::TrailerRecreational, PlatformLandTrailerSubcategories::TrailerRecreationalConventional, PlatformLandTrailerSubcategories::TrailerRecreationalTravelExpandable, PlatformLandTrailerSubcategories::TrailerRecreationalFifthWheelTravel, PlatformLandTrailerSubcategories::TrailerRecreationalFoldingCamping, PlatformLandTrailerSubcategories::TrailerRecreationalTruckCamper, PlatformLandTrailerSubcategories::TrailerAerostatMooringPlatform, PlatformLandTrailerSubcategories::TrailerHousehold, PlatformLandTrailerSubcategories::TrailerKitchen, PlatformLandTrailerSubcategories::TrailerUltraLightAircraft, PlatformLandTrailerSubcategories::TrailerHeavyEquipment], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandRecreationalSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("ATV2X4", 1), ("ATV4X4", 2), ("ATV6X6", 3), ("ATV3wheeled", 4), ("ToyOther", 5), ("ToyCar", 6), ("ToyATV", 7), ("GolfCart", 8), ("Snowmobile", 9), ("RecreationalVehicle", 10), ("RecreationalVehicleTypeAMotorhome", 11), ("RecreationalVehicleTypeBMotorhome", 12), ("RecreationalVehicleTypeCMotorhome", 13), ("ConversionVan", 14)], actual: || vec![PlatformLandRecreationalSubcategories::Other as u64, PlatformLandRecreationalSubcategories::ATV2X4 as u64, PlatformLandRecreationalSubcategories::ATV4X4 as u64, PlatformLandRecreationalSubcategories::ATV6X6 as u64, PlatformLandRecreationalSubcategories::ATV3wheeled as u64, PlatformLandRecreationalSubcategories::ToyOther as u64, PlatformLandRecreationalSubcategories::ToyCar as u64, PlatformLandRecreationalSubcategories::ToyATV as u64, PlatformLandRecreationalSubcategories::GolfCart as u64, PlatformLandRecreationalSubcategories::Snowmobile as u64, PlatformLandRecreationalSubcategories::RecreationalVehicle as u64, PlatformLandRecreationalSubcategories::RecreationalVehicleTypeAMotorhome as u64, PlatformLandRecreationalSubcategories::RecreationalVehicleTypeBMotorhome as u64, PlatformLandRecreationalSubcategories::RecreationalVehicleTypeCMotorhome as u64, PlatformLandRecreationalSubcategories::ConversionVan as u64], decode: |mut b| { let v = PlatformLandRecreationalSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandRecreationalSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandRecreationalSubcategories::Other, PlatformLandRecreationalSubcategories::ATV2X4, PlatformLandRecreationalSubcategories::ATV4X4, PlatformLandRecreationalSubcategories::ATV6X6, PlatformLandRecreationalSubcategories::ATV3wheeled, PlatformLandRecreationalSubcategories::ToyOther, PlatformLandRecreationalSubcategories::ToyCar, PlatformLandRecreationalSubcategories::ToyATV, PlatformLandRecreationalSubcategories::GolfCart, PlatformLandRecreationalSubcategories::Snowmobile, PlatformLandRecreationalSubcategories::RecreationalVehicle, PlatformLandRecreationalSubcategories::RecreationalVehicleTypeAMotorhome, PlatformLandRecreationalSubcategories::RecreationalVehicleTypeBMotorhome, PlatformLandRecreationalSubcategories::RecreationalVehicleTypeCMotorhome, PlatformLandRecreationalSubcategories::ConversionVan], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandNonmotorizedSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("Unicycle", 1), ("Bicycle", 2), ("BicycleMountain", 3), ("BicycleRacing", 4), ("Tricycle", 5), ("Quadricycle", 6), ("RickshawTwoPerson", 7), ("RickshawOnePerson", 8), ("TandemBicycle", 9), ("CycleTrailer", 10), ("CycleSidecar", 11), ("Sled", 12), ("Skis", 13), ("Snowboard", 14), ("Skateboard", 15), ("Skates", 16), ("SkatesInLine", 17), ("WagonCart", 18), ("Dolly", 19), ("Handtruck", 20), ("PushCart", 21), ("Wheelbarrow", 22), ("KickScooter", 23), ("Wheelchair", 24)], actual: || vec![PlatformLandNonmotorizedSubcategories::Other as u64, PlatformLandNonmotorizedSubcategories::Unicycle as u64, PlatformLandNonmotorizedSubcategories::Bicycle as u64, PlatformLandNonmotorizedSubcategories::BicycleMountain as u64, PlatformLandNonmotorizedSubcategories::BicycleRacing as u64, PlatformLandNonmotorizedSubcategories::Tricycle as u64, PlatformLandNonmotorizedSubcategories::Quadricycle as u64, PlatformLandNonmotorizedSubcategories::RickshawTwoPerson as u64, PlatformLandNonmotorizedSubcategories::RickshawOnePerson as u64, PlatformLandNonmotorizedSubcategories::TandemBicycle as u64, PlatformLandNonmotorizedSubcategories::CycleTrailer as u64, PlatformLandNonmotorizedSubcategories::CycleSidecar as u64, PlatformLandNonmotorizedSubcategories::Sled as u64, PlatformLandNonmotorizedSubcategories::Skis as u64, PlatformLandNonmotorizedSubcategories::Snowboard as u64, PlatformLandNonmotorizedSubcategories::Skateboard as u64, PlatformLandNonmotorizedSubcategories::Skates as u64, PlatformLandNonmotorizedSubcategories::SkatesInLine as u64, PlatformLandNonmotorizedSubcategories::WagonCart as u64, PlatformLandNonmotorizedSubcategories::Dolly as u64, PlatformLandNonmotorizedSubcategories::Handtruck as u64, PlatformLandNonmotorizedSubcategories::PushCart as u64, PlatformLandNonmotorizedSubcategories::Wheelbarrow as u64, PlatformLandNonmotorizedSubcategories::KickScooter as u64, PlatformLandNonmotorizedSubcategories::Wheelchair as u64], decode: |mut b| { let v = PlatformLandNonmotorizedSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandNonmotorizedSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandNonmotorizedSubcategories::Other, PlatformLandNonmotorizedSubcategories::Unicycle, PlatformLandNonmotorizedSubcategories::Bicycle, PlatformLandNonmotorizedSubcategories::BicycleMountain, PlatformLandNonmotorizedSubcategories::BicycleRacing, PlatformLandNonmotorizedSubcategories::Tricycle, PlatformLandNonmotorizedSubcategories::Quadricycle, PlatformLandNonmotorizedSubcategories::RickshawTwoPerson, PlatformLandNonmotorizedSubcategories::RickshawOnePerson, PlatformLandNonmotorizedSubcategories::TandemBicycle, PlatformLandNonmotorizedSubcategories::CycleTrailer, PlatformLandNonmotorizedSubcategories::CycleSidecar, PlatformLandNonmotorizedSubcategories::Sled, PlatformLandNonmotorizedSubcategories::Skis, PlatformLandNonmotorizedSubcategories::Snowboard, PlatformLandNonmotorizedSubcategories::Skateboard, PlatformLandNonmotorizedSubcategories::Skates, PlatformLandNonmotorizedSubcategories::SkatesInLine, PlatformLandNonmotorizedSubcategories::WagonCart, PlatformLandNonmotorizedSubcategories::Dolly, PlatformLandNonmotorizedSubcategories::Handtruck, PlatformLandNonmotorizedSubcategories::PushCart, PlatformLandNonmotorizedSubcategories::Wheelbarrow, PlatformLandNonmotorizedSubcategories::KickScooter, PlatformLandNonmotorizedSubcategories::Wheelchair], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandTrainsSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("Engine", 1), ("BoxCar", 2), ("Tanker", 3), ("Flatcar", 4), ("Caboose", 5), ("PassengerCar", 6), ("Hopper", 7)], actual: || vec![PlatformLandTrainsSubcategories::Other as u64, PlatformLandTrainsSubcategories::Engine as u64, PlatformLandTrainsSubcategories::BoxCar as u64, PlatformLandTrainsSubcategories::Tanker as u64, PlatformLandTrainsSubcategories::Flatcar as u64, PlatformLandTrainsSubcategories::Caboose as u64, PlatformLandTrainsSubcategories::PassengerCar as u64, PlatformLandTrainsSubcategories::Hopper as u64], decode: |mut b| { let v = PlatformLandTrainsSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandTrainsSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandTrainsSubcategories::Other, PlatformLandTrainsSubcategories::Engine, PlatformLandTrainsSubcategories::BoxCar, PlatformLandTrainsSubcategories::Tanker, PlatformLandTrainsSubcategories::Flatcar, PlatformLandTrainsSubcategories::Caboose, PlatformLandTrainsSubcategories::PassengerCar, PlatformLandTrainsSubcategories::Hopper], |v| v as u64), scan: None },
  EnumRow { name: "PlatformLandUtilityEmergencyCarSubcategories", bits: 8, default: 0, codes: &[("Other", 0), ("AmbulanceCar", 1), ("PoliceCar", 2), ("PoliceChief", 3), ("Hearse", 4), ("Taxi", 5)], actual: || vec![PlatformLandUtilityEmergencyCarSubcategories::Other as u64, PlatformLandUtilityEmergencyCarSubcategories::AmbulanceCar as u64, PlatformLandUtilityEmergencyCarSubcategories::PoliceCar as u64, PlatformLandUtilityEmergencyCarSubcategories::PoliceChief as u64, PlatformLandUtilityEmergencyCarSubcategories::Hearse as u64, PlatformLandUtilityEmergencyCarSubcategories::Taxi as u64], decode: |mut b| { let v = PlatformLandUtilityEmergencyCarSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformLandUtilityEmergencyCarSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformLandUtilityEmergencyCarSubcategories::Other, PlatformLandUtilityEmergencyCarSubcategories::AmbulanceCar, PlatformLandUtilityEmergencyCarSubcategories::PoliceCar, PlatformLandUtilityEmergencyCarSubcategories::PoliceChief, PlatformLandUtilityEmergencyCarSubcategories::Hearse, PlatformLandUtilityEmergencyCarSubcategories::Taxi], |v| v as u64), scan: None },
  EnumRow { name: "PlatformSurfacePassengerVesselSubcategories", bits: 8, default: 1, codes: &[("CruiseShip", 1), ("CruiseFerry", 2), ("HighSpeedFerry", 3), ("Ferry", 4), ("OceanLiner", 5)], actual: || vec![PlatformSurfacePassengerVesselSubcategories::CruiseShip as u64, PlatformSurfacePassengerVesselSubcategories::CruiseFerry as u64, PlatformSurfacePassengerVesselSubcategories::HighSpeedFerry as u64, PlatformSurfacePassengerVesselSubcategories::Ferry as u64, PlatformSurfacePassengerVesselSubcategories::OceanLiner as u64], decode: |mut b| { let v = PlatformSurfacePassengerVesselSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformSurfacePassengerVesselSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformSurfacePassengerVesselSubcategories::CruiseShip, PlatformSurfacePassengerVesselSubcategories::CruiseFerry, PlatformSurfacePassengerVesselSubcategories::HighSpeedFerry, PlatformSurfacePassengerVesselSubcategories::Ferry, PlatformSurfacePassengerVesselSubcategories::OceanLiner], |v| v as u64), scan: None },
  EnumRow { name: "PlatformSurfaceDryCargoShipSubcategories", bits: 8, default: 1, codes: &[("CommonDryCargoShip", 1), ("DryBulkCargoShip", 2), ("ContainerShip", 3), ("ReeferShip", 4), ("RoRoShip", 5), ("Barge", 6), ("HeavyLiftShip", 7)], actual: || vec![PlatformSurfaceDryCargoShipSubcategories::CommonDryCargoShip as u64, PlatformSurfaceDryCargoShipSubcategories::DryBulkCargoShip as u64, PlatformSurfaceDryCargoShipSubcategories::ContainerShip as u64, PlatformSurfaceDryCargoShipSubcategories::ReeferShip as u64, PlatformSurfaceDryCargoShipSubcategories::RoRoShip as u64, PlatformSurfaceDryCargoShipSubcategories::Barge as u64, PlatformSurfaceDryCargoShipSubcategories::HeavyLiftShip as u64], decode: |mut b| { let v = PlatformSurfaceDryCargoShipSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformSurfaceDryCargoShipSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformSurfaceDryCargoShipSubcategories::CommonDryCargoShip, PlatformSurfaceDryCargoShipSubcategories::DryBulkCargoShip, PlatformSurfaceDryCargoShipSubcategories::ContainerShip, PlatformSurfaceDryCargoShipSubcategories::ReeferShip, PlatformSurfaceDryCargoShipSubcategories::RoRoShip, PlatformSurfaceDryCargoShipSubcategories::Barge, PlatformSurfaceDryCargoShipSubcategories::HeavyLiftShip], |v| v as u64), scan: None },
  EnumRow { name: "PlatformSurfaceTankerSubcategories", bits: 8, default: 1, codes: &[("LiquidPetroleumGasTanker", 1), ("ChemicalTanker", 2), ("LiquidNaturalGasTanker", 3), ("CoastalTradingVessel", 4), ("CrudeOilTanker", 5), ("LiquidBulkTanker", 6), ("VeryLargeCrudeCarrier", 7), ("UltraLargeCrudeCarrier", 8), ("CondensateStorageTanker", 9)], actual: || vec![PlatformSurfaceTankerSubcategories::LiquidPetroleumGasTanker as u64, PlatformSurfaceTankerSubcategories::ChemicalTanker as u64, PlatformSurfaceTankerSubcategories::LiquidNaturalGasTanker as u64, PlatformSurfaceTankerSubcategories::CoastalTradingVessel as u64, PlatformSurfaceTankerSubcategories::CrudeOilTanker as u64, PlatformSurfaceTankerSubcategories::LiquidBulkTanker as u64, PlatformSurfaceTankerSubcategories::VeryLargeCrudeCarrier as u64, PlatformSurfaceTankerSubcategories::UltraLargeCrudeCarrier as u64, PlatformSurfaceTankerSubcategories::CondensateStorageTanker as u64], decode: |mut b| { let v = PlatformSurfaceTankerSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformSurfaceTankerSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformSurfaceTankerSubcategories::LiquidPetroleumGasTanker, PlatformSurfaceTankerSubcategories::ChemicalTanker, PlatformSurfaceTankerSubcategories::LiquidNaturalGasTanker, PlatformSurfaceTankerSubcategories::CoastalTradingVessel, PlatformSurfaceTankerSubcategories::CrudeOilTanker, PlatformSurfaceTankerSubcategories::LiquidBulkTanker, PlatformSurfaceTankerSubcategories::VeryLargeCrudeCarrier, PlatformSurfaceTankerSubcategories::UltraLargeCrudeCarrier, PlatformSurfaceTankerSubcategories::CondensateStorageTanker], |v| v as u64), scan: None },
  EnumRow { name: "PlatformSurfaceSupportVesselSubcategories", bits: 8, default: 1, codes: &[("PlatformSupplyVessel", 1), ("TenderVessel", 2), ("Tugboat", 3), ("DiveSupportVessel", 4), ("Fireboat", 5), ("WellStimulationVessel", 6), ("AnchorHandlingTugSupplyVessel", 7), ("OffshoreConstructionVessel", 8), ("EmergencyResponseandRescueVessel", 9)], actual: || vec![PlatformSurfaceSupportVesselSubcategories::PlatformSupplyVessel as u64, PlatformSurfaceSupportVesselSubcategories::TenderVessel as u64, PlatformSurfaceSupportVesselSubcategories::Tugboat as u64, PlatformSurfaceSupportVesselSubcategories::DiveSupportVessel as u64, PlatformSurfaceSupportVesselSubcategories::Fireboat as u64, PlatformSurfaceSupportVesselSubcategories::WellStimulationVessel as u64, PlatformSurfaceSupportVesselSubcategories::AnchorHandlingTugSupplyVessel as u64, PlatformSurfaceSupportVesselSubcategories::OffshoreConstructionVessel as u64, PlatformSurfaceSupportVesselSubcategories::EmergencyResponseandRescueVessel as u64], decode: |mut b| { let v = PlatformSurfaceSupportVesselSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformSurfaceSupportVesselSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformSurfaceSupportVesselSubcategories::PlatformSupplyVessel, PlatformSurfaceSupportVesselSubcategories::TenderVessel, PlatformSurfaceSupportVesselSubcategories::Tugboat, PlatformSurfaceSupportVesselSubcategories::DiveSupportVessel, PlatformSurfaceSupportVesselSubcategories::Fireboat, PlatformSurfaceSupportVesselSubcategories::WellStimulationVessel, PlatformSurfaceSupportVesselSubcategories::AnchorHandlingTugSupplyVessel, PlatformSurfaceSupportVesselSubcategories::OffshoreConstructionVessel, PlatformSurfaceSupportVesselSubcategories::EmergencyResponseandRescueVessel], |v| v as u64), scan: None },
  EnumRow { name: "PlatformSurfacePrivateMotorboatSubcategories", bits: 8, default: 1, codes: &[("SmallMotorboat", 1), ("MediumMotorboat", 2), ("LargeMotorboat", 3), ("VeryLargeMotorboat", 4)], actual: || vec![PlatformSurfacePrivateMotorboatSubcategories::SmallMotorboat as u64, PlatformSurfacePrivateMotorboatSubcategories::MediumMotorboat as u64, PlatformSurfacePrivateMotorboatSubcategories::LargeMotorboat as u64, PlatformSurfacePrivateMotorboatSubcategories::VeryLargeMotorboat as u64], decode: |mut b| { let v = PlatformSurfacePrivateMotorboatSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformSurfacePrivateMotorboatSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformSurfacePrivateMotorboatSubcategories::SmallMotorboat, PlatformSurfacePrivateMotorboatSubcategories::MediumMotorboat, PlatformSurfacePrivateMotorboatSubcategories::LargeMotorboat, PlatformSurfacePrivateMotorboatSubcategories::VeryLargeMotorboat], |v| v as u64), scan: None },
  EnumRow { name: "PlatformSurfacePrivateSailboatSubcategories", bits: 8, default: 1, codes: &[("SmallSailboat", 1), ("MediumSailboat", 2), ("LargeSailboat", 3), ("VeryLargeSailboat", 4)], actual: || vec![PlatformSurfacePrivateSailboatSubcategories::SmallSailboat as u64, PlatformSurfacePrivateSailboatSubcategories::MediumSailboat as u64, PlatformSurfacePrivateSailboatSubcategories::LargeSailboat as u64, PlatformSurfacePrivateSailboatSubcategories::VeryLargeSailboat as u64], decode: |mut b| { let v = PlatformSurfacePrivateSailboatSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformSurfacePrivateSailboatSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformSurfacePrivateSailboatSubcategories::SmallSailboat, PlatformSurfacePrivateSailboatSubcategories::MediumSailboat, PlatformSurfacePrivateSailboatSubcategories::LargeSailboat, PlatformSurfacePrivateSailboatSubcategories::VeryLargeSailboat], |v| v as u64), scan: None },
  EnumRow { name: "PlatformSurfaceFishingVesselSubcategories", bits: 8, default: 1, codes: &[("SmallFishingVessel", 1), ("MediumFishingVessel", 2), ("LargeFishingVessel", 3), ("FishProcessingVessel", 4), ("MastedFishingVessel", 5)], actual: || vec![PlatformSurfaceFishingVesselSubcategories::SmallFishingVessel as u64, PlatformSurfaceFishingVesselSubcategories::MediumFishingVessel as u64, PlatformSurfaceFishingVesselSubcategories::LargeFishingVessel as u64, PlatformSurfaceFishingVesselSubcategories::FishProcessingVessel as u64, PlatformSurfaceFishingVesselSubcategories::MastedFishingVessel as u64], decode: |mut b| { let v = PlatformSurfaceFishingVesselSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformSurfaceFishingVesselSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformSurfaceFishingVesselSubcategories::SmallFishingVessel, PlatformSurfaceFishingVesselSubcategories::MediumFishingVessel, PlatformSurfaceFishingVesselSubcategories::LargeFishingVessel, PlatformSurfaceFishingVesselSubcategories::FishProcessingVessel, PlatformSurfaceFishingVesselSubcategories::MastedFishingVessel], |v| v as u64), scan: None },
  EnumRow { name: "PlatformSurfaceOtherVesselsSubcategories", bits: 8, default: 1, codes: &[("GoFastBoat", 1), ("ResearchVessel", 2), ("HydrofoilVessel", 3), ("CableLayerVessel", 4), ("DredgerVessel", 5), ("JunkDhowVessel", 6), ("Catamaran", 7), ("Pontoon", 8), ("PersonalWaterCraft", 9), ("RefugeeRaft", 10)], actual: || vec![PlatformSurfaceOtherVesselsSubcategories::GoFastBoat as u64, PlatformSurfaceOtherVesselsSubcategories::ResearchVessel as u64, PlatformSurfaceOtherVesselsSubcategories::HydrofoilVessel as u64, PlatformSurfaceOtherVesselsSubcategories::CableLayerVessel as u64, PlatformSurfaceOtherVesselsSubcategories::DredgerVessel as u64, PlatformSurfaceOtherVesselsSubcategories::JunkDhowVessel as u64, PlatformSurfaceOtherVesselsSubcategories::Catamaran as u64, PlatformSurfaceOtherVesselsSubcategories::Pontoon as u64, PlatformSurfaceOtherVesselsSubcategories::PersonalWaterCraft as u64, PlatformSurfaceOtherVesselsSubcategories::RefugeeRaft as u64], decode: |mut b| { let v = PlatformSurfaceOtherVesselsSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformSurfaceOtherVesselsSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformSurfaceOtherVesselsSubcategories::GoFastBoat, PlatformSurfaceOtherVesselsSubcategories::ResearchVessel, PlatformSurfaceOtherVesselsSubcategories::HydrofoilVessel, PlatformSurfaceOtherVesselsSubcategories::CableLayerVessel, PlatformSurfaceOtherVesselsSubcategories::DredgerVessel, PlatformSurfaceOtherVesselsSubcategories::JunkDhowVessel, PlatformSurfaceOtherVesselsSubcategories::Catamaran, PlatformSurfaceOtherVesselsSubcategories::Pontoon, PlatformSurfaceOtherVesselsSubcategories::PersonalWaterCraft, PlatformSurfaceOtherVesselsSubcategories::RefugeeRaft], |v| v as u64), scan: None },
  EnumRow { name: "CryptoKeyIDCryptoMode", bits: 8, default: 0, codes: &[("Baseband", 0), ("Diphase", 1)], actual: || vec![CryptoKeyIDCryptoMode::Baseband as u64, CryptoKeyIDCryptoMode::Diphase as u64], decode: |mut b| { let v = CryptoKeyIDCryptoMode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <CryptoKeyIDCryptoMode as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[CryptoKeyIDCryptoMode::Baseband, CryptoKeyIDCryptoMode::Diphase], |v| v as u64), scan: None },
  EnumRow { name: "Color", bits: 8, default: 0, codes: &[("NotSpecified", 0), ("WhiteVGA", 1), ("RedVGA", 2), ("YellowVGA", 3), ("LimeVGA", 4), ("CyanVGA", 5), ("BlueVGA", 6), ("MagentaVGA", 7), ("GreyVGA", 8), ("SilverVGA", 9), ("MaroonVGA", 10), ("OliveVGA", 11), ("GreenVGA", 12), ("TealVGA", 13), ("NavyVGA", 14), ("PurpleVGA", 15), ("Black", 20), ("Navy", 21), ("DarkBlue", 22), ("MediumBlue", 23), ("Blue", 24), ("DarkGreen", 25), ("Green", 26), ("Teal", 27), ("DarkCyan", 28), ("DeepSkyBlue", 29), ("DarkTurquoise", 30), ("MediumSpringGreen", 31), ("Lime", 32), ("SpringGreen", 33), ("Cyan", 34), ("MidnightBlue", 35), ("DodgerBlue", 36), ("LightSeaGreen", 37), ("ForestGreen", 38), ("SeaGreen", 39), ("DarkSlateGray", 40), ("LimeGreen", 41), ("MediumSeaGreen", 42), ("Turquoise", 43), ("RoyalBlue", 44), ("SteelBlue", 45), ("DarkSlateBlue", 46), ("MediumTurquoise", 47), ("Indigo", 48), ("DarkOliveGreen", 49), ("CadetBlue", 50), ("CornflowerBlue", 51), ("MediumAquamarine", 52), ("DimGray", 53), ("SlateBlue", 54), ("OliveDrab", 55), ("SlateGray", 56), ("LightSlateGray", 57), ("MediumSlateBlue", 58), ("LawnGreen", 59), ("Chartreuse", 60), ("Aquamarine", 61), ("Maroon", 62), ("Purple", 63), ("Olive", 64), ("Gray", 65), ("Grey", 66), ("SkyBlue", 67), ("LightSkyBlue", 68), ("BlueViolet", 69), ("DarkRed", 70), ("DarkMagenta", 71), ("SaddleBrown", 72), ("DarkSeaGreen", 73), ("LightGreen", 74), ("MediumPurple", 75), ("DarkViolet", 76), ("PaleGreen", 77), ("DarkOrchid", 78), ("YellowGreen", 79), ("Sienna", 80), ("Brown", 81), ("DarkGray", 82), ("LightBlue", 83), ("GreenYellow", 84), ("PaleTurquoise", 85), ("LightSteelBlue", 86), ("PowderBlue", 87), ("FireBrick", 88), ("DarkGoldenRod", 89), ("MediumOrchid", 90), ("RosyBrown", 91), ("DarkKhaki", 92), ("Silver", 93), ("MediumVioletRed", 94), ("IndianRed", 95), ("Peru", 96), ("Chocolate", 97), ("Tan", 98), ("LightGray", 99), ("PaleVioletRed", 100), ("Thistle", 101), ("Orchid", 102), ("GoldenRod", 103), ("Crimson", 104), ("Gainsboro", 105), ("Plum", 106), ("BurlyWood", 107), ("LightCyan", 108), ("Lavender", 109), ("DarkSalmon", 110), ("Violet", 111), ("PaleGoldenRod", 112), ("LightCoral", 113), ("Khaki", 114), ("AliceBlue", 115), ("HoneyDew", 116), ("Azure", 117), ("SandyBrown", 118), ("Wheat", 119), ("Beige", 120), ("WhiteSmoke", 121), ("MintCream", 122), ("GhostWhite", 123), ("Salmon", 124), ("AntiqueWhite", 125), ("Linen", 126), ("LightGoldenRodYellow", 127), ("OldLace", 128), ("Red", 129), ("Fuchsia", 130), ("Magenta", 131), ("DeepPink", 132), ("OrangeRed", 133), ("Tomato", 134), ("HotPink", 135), ("Coral", 136), ("DarkOrange", 137), ("LightSalmon", 138), ("Orange", 139), ("LightPink", 140), ("Pink", 141), ("Gold", 142), ("PeachPuff", 143), ("NavajoWhite", 144), ("Moccasin", 145), ("Bisque", 146), ("MistyRose", 147), ("BlanchedAlmond", 148), ("PapayaWhip", 149), ("LavenderBlush", 150), ("SeaShell", 151), ("Cornsilk", 152), ("LemonChiffon", 153), ("FloralWhite", 154), ("Snow", 155), ("Yellow", 156), ("LightYellow", 157), ("Ivory", 158), ("White", 159)], actual: || vec![Color::NotSpecified as u64, Color::WhiteVGA as u64, Color::RedVGA as u64, Color::YellowVGA as u64, Color::LimeVGA as u64, Color::CyanVGA as u64, Color::BlueVGA as u64, Color::MagentaVGA as u64, Color::GreyVGA as u64, Color::SilverVGA as u64, Color::MaroonVGA as u64, Color::OliveVGA as u64, Color::GreenVGA as u64, Color::TealVGA as u64, Color::NavyVGA as u64, Color::PurpleVGA as u64, Color::Black as u64, Color::Navy as u64, Color::DarkBlue as u64, Color::MediumBlue as u64, Color::Blue as u64, Color::DarkGreen as u64, Color::Green as u64, Color::Teal as u64, Color::DarkCyan as u64, Color::DeepSkyBlue as u64, Color::DarkTurquoise as u64, Color::MediumSpringGreen as u64, Color::Lime as u64, Color::SpringGreen as u64, Color::Cyan as u64, Color::MidnightBlue as u64, Color::DodgerBlue as u64, Color::LightSeaGreen as u64, Color::ForestGreen as u64, Color::SeaGreen as u64, Color::DarkSlateGray as u64, Color::LimeGreen as u64, Color::MediumSeaGreen as u64, Color::Turquoise as u64, Color::RoyalBlue as u64, Color::SteelBlue as u64, Color::DarkSlateBlue as u64, Color::MediumTurquoise as u64, Color::Indigo as u64, Color::DarkOliveGreen as u64, Color::CadetBlue as u64, Color::CornflowerBlue as u64, Color::MediumAquamarine as u64, Color::DimGray as u64, Color::SlateBlue as u64, Color::OliveDrab as u64, Color::SlateGray as u64, Color::LightSlateGray as u64, Color::MediumSlateBlue as u64, Color::LawnGreen as u64, Color::Chartreuse as u64, Color::Aquamarine as u64, Color::Maroon as u64, Color::Purple as u64, Color::Olive as u64, Color::Gray as u64, Color::Grey as u64, Color::SkyBlue as u64, Color::LightSkyBlue as u64, Color::BlueViolet as u64, Color::DarkRed as u64, Color::DarkMagenta as u64, Color::SaddleBrown as u64, Color::DarkSeaGreen as u64, Color::LightGreen as u64, Color::MediumPurple as u64, Color::DarkViolet as u64, Color::PaleGreen as u64, Color::DarkOrchid as u64, Color::YellowGreen as u64, Color::Sienna as u64, Color::Brown as u64, Color::DarkGray as u64, Color::LightBlue as u64, Color::GreenYellow as u64, Color::PaleTurquoise as u64, Color::LightSteelBlue as u64, Color::PowderBlue as u64, Color::FireBrick as u64, Color::DarkGoldenRod as u64, Color::MediumOrchid as u64, Color::RosyBrown as u64, Color::DarkKhaki as u64, Color::Silver as u64, Color::MediumVioletRed as u64, Color::IndianRed as u64, Color::Peru as u64, Color::Chocolate as u64, Color::Tan as u64, Color::LightGray as u64, Color::PaleVioletRed as u64, Color::Thistle as u64, Color::Orchid as u64, Color::GoldenRod as u64, Color::Crimson as u64, Color::Gainsboro as u64, Color::Plum as u64, Color::BurlyWood as u64, Color::LightCyan as u64, Color::Lavender as u64, Color::DarkSalmon as u64, Color::Violet as u64, Color::PaleGoldenRod as u64, Color::LightCoral as u64, Color::Khaki as u64, Color::AliceBlue as u64, Color::HoneyDew as u64, Color::Azure as u64, Color::SandyBrown as u64, Color::Wheat as u64, Color::Beige as u64, Color::WhiteSmoke as u64, Color::MintCream as u64, Color::GhostWhite as u64, Color::Salmon as u64, Color::AntiqueWhite as u64, Color::Linen as u64, Color::LightGoldenRodYellow as u64, Color::OldLace as u64, Color::Red as u64, Color::Fuchsia as u64, Color::Magenta as u64, Color::DeepPink as u64, Color::OrangeRed as u64, Color::Tomato as u64, Color::HotPink as u64, Color::Coral as u64, Color::DarkOrange as u64, Color::LightSalmon as u64, Color::Orange as u64, Color::LightPink as u64, Color::Pink as u64, Color::Gold as u64, Color::PeachPuff as u64, Color::NavajoWhite as u64, Color::Moccasin as u64, Color::Bisque as u64, Color::MistyRose as u64, Color::BlanchedAlmond as u64, Color::PapayaWhip as u64, Color::LavenderBlush as u64, Color::SeaShell as u64, Color::Cornsilk as u64, Color::LemonChiffon as u64, Color::FloralWhite as u64, Color::Snow as u64, Color::Yellow as u64, Color::LightYellow as u64, Color::Ivory as u64, Color::White as u64], decode: |mut b| { let v = Color::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Color as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Color::NotSpecified, Color::WhiteVGA, Color::RedVGA, Color::YellowVGA, Color::LimeVGA, Color::CyanVGA, Color::BlueVGA, Color::MagentaVGA, Color::GreyVGA, Color::SilverVGA, Color::MaroonVGA, Color::OliveVGA, Color::GreenVGA, Color::TealVGA, Color::NavyVGA, Color::PurpleVGA, Color::Black, Color::Navy, Color::DarkBlue, Color::MediumBlue, Color::Blue, Color::DarkGreen, Color::Green, Color::Teal, Color::DarkCyan, Color::DeepSkyBlue, Color::DarkTurquoise, Color::MediumSpringGreen, Color::Lime, Color::SpringGreen, Color::Cyan, Color::MidnightBlue, Color::DodgerBlue, Color::LightSeaGreen, Color::ForestGreen, Color::SeaGreen, Color::DarkSlateGray, Color::LimeGreen, Color::MediumSeaGreen, Color::Turquoise, Color::RoyalBlue, Color::SteelBlue, Color::DarkSlateBlue, Color::MediumTurquoise, Color::Indigo, Color::DarkOliveGreen, Color::CadetBlue, Color::CornflowerBlue, Color::MediumAquamarine, Color::DimGray, Color::SlateBlue, Color::OliveDrab, Color::SlateGray, Color::LightSlateGray, Color::MediumSlateBlue, Color::LawnGreen, Color::Chartreuse, Color::Aquamarine, Color::Maroon, Color::Purple, Color::Olive, Color::Gray, Color::Grey, Color::SkyBlue, Color::LightSkyBlue, Color::BlueViolet, Color::DarkRed, Color::DarkMagenta, Color::SaddleBrown, Color::DarkSeaGreen, Color::LightGreen, Color::MediumPurple, Color::DarkViolet, Color::PaleGreen, Color::DarkOrchid, Color::YellowGreen, Color::Sienna, Color::Brown, Color::DarkGray, Color::LightBlue, Color::GreenYellow, Color::PaleTurquoise, Color::LightSteelBlue, Color::PowderBlue, Color::FireBrick, Color::DarkGoldenRod, Color::MediumOrchid, Color::RosyBrown, Color::DarkKhaki, Color::Silver, Color::MediumVioletRed, Color::IndianRed, Color::Peru, Color::Chocolate, Color::Tan, Color::LightGray, Color::PaleVioletRed, Color::Thistle, Color::Orchid, Color::GoldenRod, Color::Crimson, Color::Gainsboro, Color::Plum, Color::BurlyWood, Color::LightCyan, Color::Lavender, Color::DarkSalmon, Color::Violet, Color::PaleGoldenRod, Color::LightCoral, Color::Khaki, Color::AliceBlue, Color::HoneyDew, Color::Azure, Color::SandyBrown, Color::Wheat, Color::Beige, Color::WhiteSmoke, Color::MintCream, Color::GhostWhite, Color::Salmon, Color::AntiqueWhite, Color::Linen, Color::LightGoldenRodYellow, Color::OldLace, Color::Red, Color::Fuchsia, Color::Magenta, Color::DeepPink, Color::OrangeRed, Color::Tomato, Color::HotPink, Color::Coral, Color::DarkOrange, Color::LightSalmon, Color::Orange, Color::LightPink, Color::Pink, Color::Gold, Color::PeachPuff, Color::NavajoWhite, Color::Moccasin, Color::Bisque, Color::MistyRose, Color::BlanchedAlmond, Color::PapayaWhip, Color::LavenderBlush, Color::SeaShell, Color::Cornsilk, Color::LemonChiffon, Color::FloralWhite, Color::Snow, Color::Yellow, Color::LightYellow, Color::Ivory, Color::White], |v| v as u64), scan: None },
  EnumRow { name: "BuildingPaintScheme", bits: 8, default: 0, codes: &[("Default", 0)], actual: || vec![BuildingPaintScheme::Default as u64], decode: |mut b| { let v = BuildingPaintScheme::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <BuildingPaintScheme as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[BuildingPaintScheme::Default], |v| v as u64), scan: None },
  EnumRow { name: "Season", bits: 8, default: 0, codes: &[("Summer", 0), ("Winter", 1), ("Spring", 2), ("Autumn", 3)], actual: || vec![Season::Summer as u64, Season::Winter as u64, Season::Spring as u64, Season::Autumn as u64], decode: |mut b| { let v = Season::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Season as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Season::Summer, Season::Winter, Season::Spring, Season::Autumn], |v| v as u64), scan: None },
  EnumRow { name: "Material", bits: 8, default: 0, codes: &[("NotSpecified", 0), ("Plastic", 1), ("Rubber", 2), ("Road", 3)], actual: || vec![Material::NotSpecified as u64, Material::Plastic as u64, Material::Rubber as u64, Material::Road as u64], decode: |mut b| { let v = Material::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Material as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Material::NotSpecified, Material::Plastic, Material::Rubber, Material::Road], |v| v as u64), scan: None },
  EnumRow { name: "Link11_11BFidelityLevel", bits: 8, default: 0, codes: &[("FidelityLevel0", 0), ("FidelityLevel1", 1), ("FidelityLevel2", 2)], actual: || vec![Link11_11BFidelityLevel::FidelityLevel0 as u64, Link11_11BFidelityLevel::FidelityLevel1 as u64, Link11_11BFidelityLevel::FidelityLevel2 as u64], decode: |mut b| { let v = Link11_11BFidelityLevel::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11_11BFidelityLevel as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11_11BFidelityLevel::FidelityLevel0, Link11_11BFidelityLevel::FidelityLevel1, Link11_11BFidelityLevel::FidelityLevel2], |v| v as u64), scan: None },
  EnumRow { name: "Link11TerminalMode", bits: 8, default: 0, codes: &[("NoStatement", 0), ("NetworkControlStation", 1), ("Picket", 2)], actual: || vec![Link11TerminalMode::NoStatement as u64, Link11TerminalMode::NetworkControlStation as u64, Link11TerminalMode::Picket as u64], decode: |mut b| { let v = Link11TerminalMode::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11TerminalMode as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11TerminalMode::NoStatement, Link11TerminalMode::NetworkControlStation, Link11TerminalMode::Picket], |v| v as u64), scan: None },
  EnumRow { name: "Link11DataTerminalSetIndicator", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Transmit", 1), ("Receive", 2), ("NetBusy", 3), ("TransmitDataError", 4), ("ReceiveDataError", 5), ("CodeError", 6), ("SynchronizationComplete", 7)], actual: || vec![Link11DataTerminalSetIndicator::NoStatement as u64, Link11DataTerminalSetIndicator::Transmit as u64, Link11DataTerminalSetIndicator::Receive as u64, Link11DataTerminalSetIndicator::NetBusy as u64, Link11DataTerminalSetIndicator::TransmitDataError as u64, Link11DataTerminalSetIndicator::ReceiveDataError as u64, Link11DataTerminalSetIndicator::CodeError as u64, Link11DataTerminalSetIndicator::SynchronizationComplete as u64], decode: |mut b| { let v = Link11DataTerminalSetIndicator::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11DataTerminalSetIndicator as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11DataTerminalSetIndicator::NoStatement, Link11DataTerminalSetIndicator::Transmit, Link11DataTerminalSetIndicator::Receive, Link11DataTerminalSetIndicator::NetBusy, Link11DataTerminalSetIndicator::TransmitDataError, Link11DataTerminalSetIndicator::ReceiveDataError, Link11DataTerminalSetIndicator::CodeError, Link11DataTerminalSetIndicator::SynchronizationComplete], |v| v as u64), scan: None },
  EnumRow { name: "Link11ModeofOperation", bits: 16, default: 0, codes: &[("NoStatement", 0), ("NetSync", 1), ("NetTest", 2), ("RollCall", 3), ("ShortBroadcast", 4), ("Broadcast", 5)], actual: || vec![Link11ModeofOperation::NoStatement as u64, Link11ModeofOperation::NetSync as u64, Link11ModeofOperation::NetTest as u64, Link11ModeofOperation::RollCall as u64, Link11ModeofOperation::ShortBroadcast as u64, Link11ModeofOperation::Broadcast as u64], decode: |mut b| { let v = Link11ModeofOperation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11ModeofOperation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11ModeofOperation::NoStatement, Link11ModeofOperation::NetSync, Link11ModeofOperation::NetTest, Link11ModeofOperation::RollCall, Link11ModeofOperation::ShortBroadcast, Link11ModeofOperation::Broadcast], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormsSubcategoryIranianWeapons", bits: 8, default: 1, codes: &[("Misagh2", 1), ("RBS70", 2)], actual: || vec![LifeFormsSubcategoryIranianWeapons::Misagh2 as u64, LifeFormsSubcategoryIranianWeapons::RBS70 as u64], decode: |mut b| { let v = LifeFormsSubcategoryIranianWeapons::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormsSubcategoryIranianWeapons as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormsSubcategoryIranianWeapons::Misagh2, LifeFormsSubcategoryIranianWeapons::RBS70], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormLandCategories", bits: 8, default: 10, codes: &[("ConventionalArmedForces", 10), ("Army", 11), ("NavalInfantry", 12), ("AirForce", 13), ("Navy", 14), ("CoastGuard", 15), ("UnitedNations", 16), ("SpecialOperationsForces", 30), ("LawEnforcement", 50), ("NonMilitaryNationalGovernmentAgencies", 70), ("RegionalLocalForces", 90), ("IrregularForces", 100), ("TerroristCombatant", 101), ("Insurgent", 102), ("ParamilitaryForces", 110), ("HumanitarianOrganizations", 120), ("Civilian", 130), ("EmergencyMedicalTechnician", 131), ("Firefighter", 132), ("Press", 133), ("Mammal", 200), ("Reptile", 201), ("Amphibian", 202), ("Insect", 203), ("Arachnid", 204), ("Mollusk", 205), ("Marsupial", 206)], actual: || vec![LifeFormLandCategories::ConventionalArmedForces as u64, LifeFormLandCategories::Army as u64, LifeFormLandCategories::NavalInfantry as u64, LifeFormLandCategories::AirForce as u64, LifeFormLandCategories::Navy as u64, LifeFormLandCategories::CoastGuard as u64, LifeFormLandCategories::UnitedNations as u64, LifeFormLandCategories::SpecialOperationsForces as u64, LifeFormLandCategories::LawEnforcement as u64, LifeFormLandCategories::NonMilitaryNationalGovernmentAgencies as u64, LifeFormLandCategories::RegionalLocalForces as u64, LifeFormLandCategories::IrregularForces as u64, LifeFormLandCategories::TerroristCombatant as u64, LifeFormLandCategories::Insurgent as u64, LifeFormLandCategories::ParamilitaryForces as u64, LifeFormLandCategories::HumanitarianOrganizations as u64, LifeFormLandCategories::Civilian as u64, LifeFormLandCategories::EmergencyMedicalTechnician as u64, LifeFormLandCategories::Firefighter as u64, LifeFormLandCategories::Press as u64, LifeFormLandCategories::Mammal as u64, LifeFormLandCategories::Reptile as u64, LifeFormLandCategories::Amphibian as u64, LifeFormLandCategories::Insect as u64, LifeFormLandCategories::Arachnid as u64, LifeFormLandCategories::Mollusk as u64, LifeFormLandCategories::Marsupial as u64], decode: |mut b| { let v = LifeFormLandCategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormLandCategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormLandCategories::ConventionalArmedForces, LifeFormLandCategories::Army, LifeFormLandCategories::NavalInfantry, LifeFormLandCategories::AirForce, LifeFormLandCategories::Navy, LifeFormLandCategories::CoastGuard, LifeFormLandCategories::UnitedNations, LifeFormLandCategories::SpecialOperationsForces, LifeFormLandCategories::LawEnforcement, LifeFormLandCategories::NonMilitaryNationalGovernmentAgencies, LifeFormLandCategories::RegionalLocalForces, LifeFormLandCategories::IrregularForces, LifeFormLandCategories::TerroristCombatant, LifeFormLandCategories::Insurgent, LifeFormLandCategories::ParamilitaryForces, LifeFormLandCategories::HumanitarianOrganizations, LifeFormLandCategories::Civilian, LifeFormLandCategories::EmergencyMedicalTechnician, LifeFormLandCategories::Firefighter, LifeFormLandCategories::Press, LifeFormLandCategories::Mammal, LifeFormLandCategories::Reptile, LifeFormLandCategories::Amphibian, LifeFormLandCategories::Insect, LifeFormLandCategories::Arachnid, LifeFormLandCategories::Mollusk, LifeFormLandCategories::Marsupial], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSubcategoryEquipmentClass", bits: 8, default: 0, codes: &[("None", 0), ("WeaponNonspecific", 1), ("AssaultRifles", 5), ("HighPowerRifles", 10), ("SniperRifles", 15), ("AntiMaterielRifle", 17), ("SubMachineGuns", 20), ("ShotGuns", 25), ("GrenadeLaunchers", 30), ("MachineGuns", 35), ("GrenadeLaunchingMachineGun", 40), ("AntiTankRockets", 45), ("AntiTankMissiles", 50), ("AntiTankGuns", 55), ("FlameRockets", 60), ("FlameThrowers", 65), ("RocketLaunchers", 70), ("Mortars", 75), ("HandGuns", 80), ("ManPortableAirDefenseSystem", 85), ("RecoillessRifles", 90), ("DroneGuns", 95), ("EquipmentNonspecific", 150), ("Sensors", 151), ("SignalSensor", 152), ("Lasers", 153), ("AnimalCompanion", 160), ("PersonalElectronics", 171), ("LogisticsEquipment", 172)], actual: || vec![LifeFormHumanSubcategoryEquipmentClass::None as u64, LifeFormHumanSubcategoryEquipmentClass::WeaponNonspecific as u64, LifeFormHumanSubcategoryEquipmentClass::AssaultRifles as u64, LifeFormHumanSubcategoryEquipmentClass::HighPowerRifles as u64, LifeFormHumanSubcategoryEquipmentClass::SniperRifles as u64, LifeFormHumanSubcategoryEquipmentClass::AntiMaterielRifle as u64, LifeFormHumanSubcategoryEquipmentClass::SubMachineGuns as u64, LifeFormHumanSubcategoryEquipmentClass::ShotGuns as u64, LifeFormHumanSubcategoryEquipmentClass::GrenadeLaunchers as u64, LifeFormHumanSubcategoryEquipmentClass::MachineGuns as u64, LifeFormHumanSubcategoryEquipmentClass::GrenadeLaunchingMachineGun as u64, LifeFormHumanSubcategoryEquipmentClass::AntiTankRockets as u64, LifeFormHumanSubcategoryEquipmentClass::AntiTankMissiles as u64, LifeFormHumanSubcategoryEquipmentClass::AntiTankGuns as u64, LifeFormHumanSubcategoryEquipmentClass::FlameRockets as u64, LifeFormHumanSubcategoryEquipmentClass::FlameThrowers as u64, LifeFormHumanSubcategoryEquipmentClass::RocketLaunchers as u64, LifeFormHumanSubcategoryEquipmentClass::Mortars as u64, LifeFormHumanSubcategoryEquipmentClass::HandGuns as u64, LifeFormHumanSubcategoryEquipmentClass::ManPortableAirDefenseSystem as u64, LifeFormHumanSubcategoryEquipmentClass::RecoillessRifles as u64, LifeFormHumanSubcategoryEquipmentClass::DroneGuns as u64, LifeFormHumanSubcategoryEquipmentClass::EquipmentNonspecific as u64, LifeFormHumanSubcategoryEquipmentClass::Sensors as u64, LifeFormHumanSubcategoryEquipmentClass::SignalSensor as u64, LifeFormHumanSubcategoryEquipmentClass::Lasers as u64, LifeFormHumanSubcategoryEquipmentClass::AnimalCompanion as u64, LifeFormHumanSubcategoryEquipmentClass::PersonalElectronics as u64, LifeFormHumanSubcategoryEquipmentClass::LogisticsEquipment as u64], decode: |mut b| { let v = LifeFormHumanSubcategoryEquipmentClass::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSubcategoryEquipmentClass as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSubcategoryEquipmentClass::None, LifeFormHumanSubcategoryEquipmentClass::WeaponNonspecific, LifeFormHumanSubcategoryEquipmentClass::AssaultRifles, LifeFormHumanSubcategoryEquipmentClass::HighPowerRifles, LifeFormHumanSubcategoryEquipmentClass::SniperRifles, LifeFormHumanSubcategoryEquipmentClass::AntiMaterielRifle, LifeFormHumanSubcategoryEquipmentClass::SubMachineGuns, LifeFormHumanSubcategoryEquipmentClass::ShotGuns, LifeFormHumanSubcategoryEquipmentClass::GrenadeLaunchers, LifeFormHumanSubcategoryEquipmentClass::MachineGuns, LifeFormHumanSubcategoryEquipmentClass::GrenadeLaunchingMachineGun, LifeFormHumanSubcategoryEquipmentClass::AntiTankRockets, LifeFormHumanSubcategoryEquipmentClass::AntiTankMissiles, LifeFormHumanSubcategoryEquipmentClass::AntiTankGuns, LifeFormHumanSubcategoryEquipmentClass::FlameRockets, LifeFormHumanSubcategoryEquipmentClass::FlameThrowers, LifeFormHumanSubcategoryEquipmentClass::RocketLaunchers, LifeFormHumanSubcategoryEquipmentClass::Mortars, LifeFormHumanSubcategoryEquipmentClass::HandGuns, LifeFormHumanSubcategoryEquipmentClass::ManPortableAirDefenseSystem, LifeFormHumanSubcategoryEquipmentClass::RecoillessRifles, LifeFormHumanSubcategoryEquipmentClass::DroneGuns, LifeFormHumanSubcategoryEquipmentClass::EquipmentNonspecific, LifeFormHumanSubcategoryEquipmentClass::Sensors, LifeFormHumanSubcategoryEquipmentClass::SignalSensor, LifeFormHumanSubcategoryEquipmentClass::Lasers, LifeFormHumanSubcategoryEquipmentClass::AnimalCompanion, LifeFormHumanSubcategoryEquipmentClass::PersonalElectronics, LifeFormHumanSubcategoryEquipmentClass::LogisticsEquipment], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificAssaultRifles", bits: 8, default: 0, codes: &[("Other", 0), ("_4_5mmInterdynamicsMKR", 1), ("_5_45mmAK74", 10), ("_5_45mmAKS74", 11), ("_5_45mmAK74M", 12), ("_5_45mmKbkwz_1988Tantal", 13), ("_5_56mmAK101", 30), ("_5_56mmDiemacoC7", 31), ("_5_56mmColtCanadaC8Carbine", 32), ("_5_56mmGIATFAMASG2", 33), ("_5_56mmFNFNC", 34), ("_5_56mmHKG36", 35), ("_5_56mmIMIGalil", 36), ("_5_56mmINSAS", 37), ("_5_56mmDaewooK1", 38), ("_5_56mmDaewooK2", 39), ("_5_56mmM16A1", 40), ("_5_56mmM16A2A3A4", 41), ("_5_56mmColtM4", 42), ("_5_56mmColtM4SpecialOperationsPeculiarModification", 43), ("_5_56mmRugerMini14", 44), ("_5_56mmEnfieldSA80A2", 45), ("_5_56mmPindadSS1V1", 46), ("_5_56mmPindadSS1V2", 47), ("_5_56mmPindadSS1V3", 48), ("_5_56mmSteyrAUGA1", 49), ("_5_56mmT65", 50), ("_5_56mmT91", 51), ("_5_56mmTavorTAR21", 52), ("_5_56mmTypeCQM311", 53), ("_5_56mmDaewooK11", 54), ("_5_56mmAusteyrF88", 55), ("_5_56mmAusteyrF88GLA", 56), ("_5_56mmAusteyrF88SA1", 57), ("_5_56mmAusteyrF88SA2", 58), ("_5_56mmAusteyrF88C", 59), ("_5_56mmAusteyrF88SA1C", 60), ("_5_56mmAusteyrF88SA1LTR", 61), ("_5_56mmAusteyrEF88", 62), ("_5_56mmBushmasterXM15", 63), ("_5_56mmHK416", 64), ("_5_56mmF90", 65), ("_5_56mmF90G", 66), ("_5_56mmF90M", 67), ("_5_56mmF90MG", 68), ("_5_56mmF90CQB", 69), ("_5_56mmMK17SCARL", 70), ("_5_8mmQBZ95", 100), ("_7_62mmAK103", 110), ("_7_62mmAK104", 111), ("_7_62mmAK47", 112), ("_7_62mmAKM", 113), ("_7_62mmAKS47", 114), ("_7_62mmHKG3A3", 115), ("_7_62mmIMIGalil", 116), ("_7_62mmKLS", 117), ("_7_62mmSKS", 118), ("_7_62mmType56", 119), ("_7_62mmType6368", 120), ("_7_62mmType81", 121), ("_7_62mmMK17SCARH", 122), ("_8mmLebelM16", 240)], actual: || vec![LifeFormHumanSpecificAssaultRifles::Other as u64, LifeFormHumanSpecificAssaultRifles::_4_5mmInterdynamicsMKR as u64, LifeFormHumanSpecificAssaultRifles::_5_45mmAK74 as u64, LifeFormHumanSpecificAssaultRifles::_5_45mmAKS74 as u64, LifeFormHumanSpecificAssaultRifles::_5_45mmAK74M as u64, LifeFormHumanSpecificAssaultRifles::_5_45mmKbkwz_1988Tantal as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmAK101 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmDiemacoC7 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmColtCanadaC8Carbine as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmGIATFAMASG2 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmFNFNC as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmHKG36 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmIMIGalil as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmINSAS as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmDaewooK1 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmDaewooK2 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmM16A1 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmM16A2A3A4 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmColtM4 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmColtM4SpecialOperationsPeculiarModification as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmRugerMini14 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmEnfieldSA80A2 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmPindadSS1V1 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmPindadSS1V2 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmPindadSS1V3 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmSteyrAUGA1 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmT65 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmT91 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmTavorTAR21 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmTypeCQM311 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmDaewooK11 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88GLA as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88SA1 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88SA2 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88C as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88SA1C as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88SA1LTR as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrEF88 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmBushmasterXM15 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmHK416 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmF90 as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmF90G as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmF90M as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmF90MG as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmF90CQB as u64, LifeFormHumanSpecificAssaultRifles::_5_56mmMK17SCARL as u64, LifeFormHumanSpecificAssaultRifles::_5_8mmQBZ95 as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmAK103 as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmAK104 as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmAK47 as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmAKM as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmAKS47 as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmHKG3A3 as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmIMIGalil as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmKLS as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmSKS as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmType56 as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmType6368 as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmType81 as u64, LifeFormHumanSpecificAssaultRifles::_7_62mmMK17SCARH as u64, LifeFormHumanSpecificAssaultRifles::_8mmLebelM16 as u64], decode: |mut b| { let v = LifeFormHumanSpecificAssaultRifles::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificAssaultRifles as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificAssaultRifles::Other, LifeFormHumanSpecificAssaultRifles::_4_5mmInterdynamicsMKR, LifeFormHumanSpecificAssaultRifles::_5_45mmAK74, LifeFormHumanSpecificAssaultRifles::_5_45mmAKS74, LifeFormHumanSpecificAssaultRifles::_5_45mmAK74M, LifeFormHumanSpecificAssaultRifles::_5_45mmKbkwz_1988Tantal, LifeFormHumanSpecificAssaultRifles::_5_56mmAK101, LifeFormHumanSpecificAssaultRifles::_5_56mmDiemacoC7, LifeFormHumanSpecificAssaultRifles::_5_56mmColtCanadaC8Carbine, LifeFormHumanSpecificAssaultRifles::_5_56mmGIATFAMASG2, LifeFormHumanSpecificAssaultRifles::_5_56mmFNFNC, LifeFormHumanSpecificAssaultRifles::_5_56mmHKG36, LifeFormHumanSpecificAssaultRifles::_5_56mmIMIGalil, LifeFormHumanSpecificAssaultRifles::_5_56mmINSAS, LifeFormHumanSpecificAssaultRifles::_5_56mmDaewooK1, LifeFormHumanSpecificAssaultRifles::_5_56mmDaewooK2, LifeFormHumanSpecificAssaultRifles::_5_56mmM16A1, LifeFormHumanSpecificAssaultRifles::_5_56mmM16A2A3A4, LifeFormHumanSpecificAssaultRifles::_5_56mmColtM4, LifeFormHumanSpecificAssaultRifles::_5_56mmColtM4SpecialOperationsPeculiarModification, LifeFormHumanSpecificAssaultRifles::_5_56mmRugerMini14, LifeFormHumanSpecificAssaultRifles::_5_56mmEnfieldSA80A2, LifeFormHumanSpecificAssaultRifles::_5_56mmPindadSS1V1, LifeFormHumanSpecificAssaultRifles::_5_56mmPindadSS1V2, LifeFormHumanSpecificAssaultRifles::_5_56mmPindadSS1V3, LifeFormHumanSpecificAssaultRifles::_5_56mmSteyrAUGA1, LifeFormHumanSpecificAssaultRifles::_5_56mmT65, LifeFormHumanSpecificAssaultRifles::_5_56mmT91, LifeFormHumanSpecificAssaultRifles::_5_56mmTavorTAR21, LifeFormHumanSpecificAssaultRifles::_5_56mmTypeCQM311, LifeFormHumanSpecificAssaultRifles::_5_56mmDaewooK11, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88GLA, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88SA1, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88SA2, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88C, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88SA1C, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrF88SA1LTR, LifeFormHumanSpecificAssaultRifles::_5_56mmAusteyrEF88, LifeFormHumanSpecificAssaultRifles::_5_56mmBushmasterXM15, LifeFormHumanSpecificAssaultRifles::_5_56mmHK416, LifeFormHumanSpecificAssaultRifles::_5_56mmF90, LifeFormHumanSpecificAssaultRifles::_5_56mmF90G, LifeFormHumanSpecificAssaultRifles::_5_56mmF90M, LifeFormHumanSpecificAssaultRifles::_5_56mmF90MG, LifeFormHumanSpecificAssaultRifles::_5_56mmF90CQB, LifeFormHumanSpecificAssaultRifles::_5_56mmMK17SCARL, LifeFormHumanSpecificAssaultRifles::_5_8mmQBZ95, LifeFormHumanSpecificAssaultRifles::_7_62mmAK103, LifeFormHumanSpecificAssaultRifles::_7_62mmAK104, LifeFormHumanSpecificAssaultRifles::_7_62mmAK47, LifeFormHumanSpecificAssaultRifles::_7_62mmAKM, LifeFormHumanSpecificAssaultRifles::_7_62mmAKS47, LifeFormHumanSpecificAssaultRifles::_7_62mmHKG3A3, LifeFormHumanSpecificAssaultRifles::_7_62mmIMIGalil, LifeFormHumanSpecificAssaultRifles::_7_62mmKLS, LifeFormHumanSpecificAssaultRifles::_7_62mmSKS, LifeFormHumanSpecificAssaultRifles::_7_62mmType56, LifeFormHumanSpecificAssaultRifles::_7_62mmType6368, LifeFormHumanSpecificAssaultRifles::_7_62mmType81, LifeFormHumanSpecificAssaultRifles::_7_62mmMK17SCARH, LifeFormHumanSpecificAssaultRifles::_8mmLebelM16], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificHighPowerRifles", bits: 8, default: 0, codes: &[("Other", 0), ("_7_62mmM14", 10), ("_7_62mmRemington700", 11), ("_7_62mmSIGSauerSSG2000", 12), ("_7_62mmStonerSR25", 13), ("_7_62mmMosinNagantModel189130", 14), ("_7_62mmHK417", 15), ("_7_62mmHK41716Recce", 16), ("_7_65mmBARM1918", 50), ("_7_65mmM1Garand", 51)], actual: || vec![LifeFormHumanSpecificHighPowerRifles::Other as u64, LifeFormHumanSpecificHighPowerRifles::_7_62mmM14 as u64, LifeFormHumanSpecificHighPowerRifles::_7_62mmRemington700 as u64, LifeFormHumanSpecificHighPowerRifles::_7_62mmSIGSauerSSG2000 as u64, LifeFormHumanSpecificHighPowerRifles::_7_62mmStonerSR25 as u64, LifeFormHumanSpecificHighPowerRifles::_7_62mmMosinNagantModel189130 as u64, LifeFormHumanSpecificHighPowerRifles::_7_62mmHK417 as u64, LifeFormHumanSpecificHighPowerRifles::_7_62mmHK41716Recce as u64, LifeFormHumanSpecificHighPowerRifles::_7_65mmBARM1918 as u64, LifeFormHumanSpecificHighPowerRifles::_7_65mmM1Garand as u64], decode: |mut b| { let v = LifeFormHumanSpecificHighPowerRifles::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificHighPowerRifles as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificHighPowerRifles::Other, LifeFormHumanSpecificHighPowerRifles::_7_62mmM14, LifeFormHumanSpecificHighPowerRifles::_7_62mmRemington700, LifeFormHumanSpecificHighPowerRifles::_7_62mmSIGSauerSSG2000, LifeFormHumanSpecificHighPowerRifles::_7_62mmStonerSR25, LifeFormHumanSpecificHighPowerRifles::_7_62mmMosinNagantModel189130, LifeFormHumanSpecificHighPowerRifles::_7_62mmHK417, LifeFormHumanSpecificHighPowerRifles::_7_62mmHK41716Recce, LifeFormHumanSpecificHighPowerRifles::_7_65mmBARM1918, LifeFormHumanSpecificHighPowerRifles::_7_65mmM1Garand], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormCategoriesUS", bits: 8, default: 11, codes: &[("USArmy", 11), ("USMarineCorps", 12), ("USAirForce", 13), ("USNavy", 14), ("USCoastGuard", 15), ("Rangers", 31), ("ARSOF", 32), ("ForceReconnaissance", 33), ("NavySEAL", 34), ("AFSOF", 35), ("DeltaForce", 36), ("FederalBureauofInvestigation", 51), ("CentralIntelligenceAgency", 52), ("DepartmentofHomelandSecurity", 53), ("BureauofAlcoholTobaccoFirearmsandExplosives", 54), ("USSecretService", 55), ("USMarshal", 56), ("StatePolice", 71), ("CountySheriffPolice", 72), ("MunicipalPolice", 73), ("RedCross", 124)], actual: || vec![LifeFormCategoriesUS::USArmy as u64, LifeFormCategoriesUS::USMarineCorps as u64, LifeFormCategoriesUS::USAirForce as u64, LifeFormCategoriesUS::USNavy as u64, LifeFormCategoriesUS::USCoastGuard as u64, LifeFormCategoriesUS::Rangers as u64, LifeFormCategoriesUS::ARSOF as u64, LifeFormCategoriesUS::ForceReconnaissance as u64, LifeFormCategoriesUS::NavySEAL as u64, LifeFormCategoriesUS::AFSOF as u64, LifeFormCategoriesUS::DeltaForce as u64, LifeFormCategoriesUS::FederalBureauofInvestigation as u64, LifeFormCategoriesUS::CentralIntelligenceAgency as u64, LifeFormCategoriesUS::DepartmentofHomelandSecurity as u64, LifeFormCategoriesUS::BureauofAlcoholTobaccoFirearmsandExplosives as u64, LifeFormCategoriesUS::USSecretService as u64, LifeFormCategoriesUS::USMarshal as u64, LifeFormCategoriesUS::StatePolice as u64, LifeFormCategoriesUS::CountySheriffPolice as u64, LifeFormCategoriesUS::MunicipalPolice as u64, LifeFormCategoriesUS::RedCross as u64], decode: |mut b| { let v = LifeFormCategoriesUS::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormCategoriesUS as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormCategoriesUS::USArmy, LifeFormCategoriesUS::USMarineCorps, LifeFormCategoriesUS::USAirForce, LifeFormCategoriesUS::USNavy, LifeFormCategoriesUS::USCoastGuard, LifeFormCategoriesUS::Rangers, LifeFormCategoriesUS::ARSOF, LifeFormCategoriesUS::ForceReconnaissance, LifeFormCategoriesUS::NavySEAL, LifeFormCategoriesUS::AFSOF, LifeFormCategoriesUS::DeltaForce, LifeFormCategoriesUS::FederalBureauofInvestigation, LifeFormCategoriesUS::CentralIntelligenceAgency, LifeFormCategoriesUS::DepartmentofHomelandSecurity, LifeFormCategoriesUS::BureauofAlcoholTobaccoFirearmsandExplosives, LifeFormCategoriesUS::USSecretService, LifeFormCategoriesUS::USMarshal, LifeFormCategoriesUS::StatePolice, LifeFormCategoriesUS::CountySheriffPolice, LifeFormCategoriesUS::MunicipalPolice, LifeFormCategoriesUS::RedCross], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormExtraPersonalData", bits: 8, default: 0, codes: &[("NotSpecifiedMale", 0), ("AsianMale", 1), ("PacificIslanderMale", 2), ("BlackMale", 3), ("EastAsianMale", 4), ("HispanicMale", 5), ("WhiteMale", 6), ("ArabMale", 7), ("HomogenousCountryCodeMale", 8), ("IndigenousCountryCodeMale", 9), ("InfantMale", 10), ("ToddlerMale", 20), ("ChildMale", 30), ("AdolescentMale", 40), ("TeenagerMale", 50), ("YoungAdultMale", 60), ("AdultMale", 70), ("SeniorAdultMale", 80), ("ElderlyMale", 90), ("Female", 100), ("AsianFemale", 101), ("PacificIslanderFemale", 102), ("BlackFemale", 103), ("EastAsianFemale", 104), ("HispanicFemale", 105), ("WhiteFemale", 106), ("ArabFemale", 107), ("HomogenousCountryCodeFemale", 108), ("IndigenousCountryCodeFemale", 109), ("InfantFemale", 110), ("ToddlerFemale", 120), ("ChildFemale", 130), ("AdolescentFemale", 140), ("TeenagerFemale", 150), ("YoungAdultFemale", 160), ("AdultFemale", 170), ("SeniorAdultFemale", 180), ("ElderlyFemale", 190)], actual: || vec![LifeFormExtraPersonalData::NotSpecifiedMale as u64, LifeFormExtraPersonalData::AsianMale as u64, LifeFormExtraPersonalData::PacificIslanderMale as u64, LifeFormExtraPersonalData::BlackMale as u64, LifeFormExtraPersonalData::EastAsianMale as u64, LifeFormExtraPersonalData::HispanicMale as u64, LifeFormExtraPersonalData::WhiteMale as u64, LifeFormExtraPersonalData::ArabMale as u64, LifeFormExtraPersonalData::HomogenousCountryCodeMale as u64, LifeFormExtraPersonalData::IndigenousCountryCodeMale as u64, LifeFormExtraPersonalData::InfantMale as u64, LifeFormExtraPersonalData::ToddlerMale as u64, LifeFormExtraPersonalData::ChildMale as u64, LifeFormExtraPersonalData::AdolescentMale as u64, LifeFormExtraPersonalData::TeenagerMale as u64, LifeFormExtraPersonalData::YoungAdultMale as u64, LifeFormExtraPersonalData::AdultMale as u64, LifeFormExtraPersonalData::SeniorAdultMale as u64, LifeFormExtraPersonalData::ElderlyMale as u64, LifeFormExtraPersonalData::Female as u64, LifeFormExtraPersonalData::AsianFemale as u64, LifeFormExtraPersonalData::PacificIslanderFemale as u64, LifeFormExtraPersonalData::BlackFemale as u64, LifeFormExtraPersonalData::EastAsianFemale as u64, LifeFormExtraPersonalData::HispanicFemale as u64, LifeFormExtraPersonalData::WhiteFemale as u64, LifeFormExtraPersonalData::ArabFemale as u64, LifeFormExtraPersonalData::HomogenousCountryCodeFemale as u64, LifeFormExtraPersonalData::IndigenousCountryCodeFemale as u64, LifeFormExtraPersonalData::InfantFemale as u64, LifeFormExtraPersonalData::ToddlerFemale as u64, LifeFormExtraPersonalData::ChildFemale as u64, LifeFormExtraPersonalData::AdolescentFemale as u64, LifeFormExtraPersonalData::TeenagerFemale as u64, LifeFormExtraPersonalData::YoungAdultFemale as u64, LifeFormExtraPersonalData::AdultFemale as u64, LifeFormExtraPersonalData::SeniorAdultFemale as u64, LifeFormExtraPersonalData::ElderlyFemale as u64], decode: |mut b| { let v = LifeFormExtraPersonalData::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormExtraPersonalData as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormExtraPersonalData::NotSpecifiedMale, LifeFormExtraPersonalData::AsianMale, LifeFormExtraPersonalData::PacificIslanderMale, LifeFormExtraPersonalData::BlackMale, LifeFormExtraPersonalData::EastAsianMale, LifeFormExtraPersonalData::HispanicMale, LifeFormExtraPersonalData::WhiteMale, LifeFormExtraPersonalData::ArabMale, LifeFormExtraPersonalData::HomogenousCountryCodeMale, LifeFormExtraPersonalData::IndigenousCountryCodeMale, LifeFormExtraPersonalData::InfantMale, LifeFormExtraPersonalData::ToddlerMale, LifeFormExtraPersonalData::ChildMale, LifeFormExtraPersonalData::AdolescentMale, LifeFormExtraPersonalData::TeenagerMale, LifeFormExtraPersonalData::YoungAdultMale, LifeFormExtraPersonalData::AdultMale, LifeFormExtraPersonalData::SeniorAdultMale, LifeFormExtraPersonalData::ElderlyMale, LifeFormExtraPersonalData::Female, LifeFormExtraPersonalData::AsianFemale, LifeFormExtraPersonalData::PacificIslanderFemale, LifeFormExtraPersonalData::BlackFemale, LifeFormExtraPersonalData::EastAsianFemale, LifeFormExtraPersonalData::HispanicFemale, LifeFormExtraPersonalData::WhiteFemale, LifeFormExtraPersonalData::ArabFemale, LifeFormExtraPersonalData::HomogenousCountryCodeFemale, LifeFormExtraPersonalData::IndigenousCountryCodeFemale, LifeFormExtraPersonalData::InfantFemale, LifeFormExtraPersonalData::ToddlerFemale, LifeFormExtraPersonalData::ChildFemale, LifeFormExtraPersonalData::AdolescentFemale, LifeFormExtraPersonalData::TeenagerFemale, LifeFormExtraPersonalData::YoungAdultFemale, LifeFormExtraPersonalData::AdultFemale, LifeFormExtraPersonalData::SeniorAdultFemale, LifeFormExtraPersonalData::ElderlyFemale], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormAirCategories", bits: 8, default: 200, codes: &[("Bird", 200), ("Insect", 201), ("Mammal", 202)], actual: || vec![LifeFormAirCategories::Bird as u64, LifeFormAirCategories::Insect as u64, LifeFormAirCategories::Mammal as u64], decode: |mut b| { let v = LifeFormAirCategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormAirCategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormAirCategories::Bird, LifeFormAirCategories::Insect, LifeFormAirCategories::Mammal], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormSubsurfaceCategories", bits: 8, default: 200, codes: &[("Fish", 200), ("Mammal", 201), ("Mollusk", 202), ("Crustacean", 203), ("Insect", 204)], actual: || vec![LifeFormSubsurfaceCategories::Fish as u64, LifeFormSubsurfaceCategories::Mammal as u64, LifeFormSubsurfaceCategories::Mollusk as u64, LifeFormSubsurfaceCategories::Crustacean as u64, LifeFormSubsurfaceCategories::Insect as u64], decode: |mut b| { let v = LifeFormSubsurfaceCategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormSubsurfaceCategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormSubsurfaceCategories::Fish, LifeFormSubsurfaceCategories::Mammal, LifeFormSubsurfaceCategories::Mollusk, LifeFormSubsurfaceCategories::Crustacean, LifeFormSubsurfaceCategories::Insect], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificSniper", bits: 8, default: 0, codes: &[("Other", 0), ("_5_8mmQBU88", 1), ("_7_62mmC3", 30), ("_7_62mmFRF2", 31), ("_7_62mmAWMF", 32), ("_7_62mmG3SG1", 33), ("_7_62mmGalilSniper", 34), ("_7_62mmL96A1", 35), ("_7_62mmM14DMR", 36), ("_7_62mmM24SniperWeaponSystem", 37), ("_7_62mmM40A1A3", 38), ("_7_62mmSteyrSSG69", 39), ("_7_62mmSVD", 40), ("_7_62mmTYPE79", 41), ("_7_62mmSR25MK11", 42), ("_7_62mmAWSR98", 43), ("_7_62mmBlaserR93", 44), ("_7_62mmM2010EnhancedSniperRifle", 45), ("_7_62mmM110SemiAutomaticSniperSystem", 46), ("_7_62mmL129A1", 47), ("_7_7mmTYPE99", 100), ("_8_58mmBlaserR93Tactical2", 105), ("_9mmVSSVintorez", 110), ("_12_7mmSteyrHS_50", 170), ("_12_7mmM82A1ASpecialApplicationsScopedRifle", 171), ("_12_7mmNSV", 172), ("_12_7mmOSV96", 173), ("_12_7mmRangemaster50", 174), ("_12_7mmV94", 175), ("_12_7mmM107", 176), ("_20mmDenelNTW20", 200)], actual: || vec![LifeFormHumanSpecificSniper::Other as u64, LifeFormHumanSpecificSniper::_5_8mmQBU88 as u64, LifeFormHumanSpecificSniper::_7_62mmC3 as u64, LifeFormHumanSpecificSniper::_7_62mmFRF2 as u64, LifeFormHumanSpecificSniper::_7_62mmAWMF as u64, LifeFormHumanSpecificSniper::_7_62mmG3SG1 as u64, LifeFormHumanSpecificSniper::_7_62mmGalilSniper as u64, LifeFormHumanSpecificSniper::_7_62mmL96A1 as u64, LifeFormHumanSpecificSniper::_7_62mmM14DMR as u64, LifeFormHumanSpecificSniper::_7_62mmM24SniperWeaponSystem as u64, LifeFormHumanSpecificSniper::_7_62mmM40A1A3 as u64, LifeFormHumanSpecificSniper::_7_62mmSteyrSSG69 as u64, LifeFormHumanSpecificSniper::_7_62mmSVD as u64, LifeFormHumanSpecificSniper::_7_62mmTYPE79 as u64, LifeFormHumanSpecificSniper::_7_62mmSR25MK11 as u64, LifeFormHumanSpecificSniper::_7_62mmAWSR98 as u64, LifeFormHumanSpecificSniper::_7_62mmBlaserR93 as u64, LifeFormHumanSpecificSniper::_7_62mmM2010EnhancedSniperRifle as u64, LifeFormHumanSpecificSniper::_7_62mmM110SemiAutomaticSniperSystem as u64, LifeFormHumanSpecificSniper::_7_62mmL129A1 as u64, LifeFormHumanSpecificSniper::_7_7mmTYPE99 as u64, LifeFormHumanSpecificSniper::_8_58mmBlaserR93Tactical2 as u64, LifeFormHumanSpecificSniper::_9mmVSSVintorez as u64, LifeFormHumanSpecificSniper::_12_7mmSteyrHS_50 as u64, LifeFormHumanSpecificSniper::_12_7mmM82A1ASpecialApplicationsScopedRifle as u64, LifeFormHumanSpecificSniper::_12_7mmNSV as u64, LifeFormHumanSpecificSniper::_12_7mmOSV96 as u64, LifeFormHumanSpecificSniper::_12_7mmRangemaster50 as u64, LifeFormHumanSpecificSniper::_12_7mmV94 as u64, LifeFormHumanSpecificSniper::_12_7mmM107 as u64, LifeFormHumanSpecificSniper::_20mmDenelNTW20 as u64], decode: |mut b| { let v = LifeFormHumanSpecificSniper::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificSniper as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificSniper::Other, LifeFormHumanSpecificSniper::_5_8mmQBU88, LifeFormHumanSpecificSniper::_7_62mmC3, LifeFormHumanSpecificSniper::_7_62mmFRF2, LifeFormHumanSpecificSniper::_7_62mmAWMF, LifeFormHumanSpecificSniper::_7_62mmG3SG1, LifeFormHumanSpecificSniper::_7_62mmGalilSniper, LifeFormHumanSpecificSniper::_7_62mmL96A1, LifeFormHumanSpecificSniper::_7_62mmM14DMR, LifeFormHumanSpecificSniper::_7_62mmM24SniperWeaponSystem, LifeFormHumanSpecificSniper::_7_62mmM40A1A3, LifeFormHumanSpecificSniper::_7_62mmSteyrSSG69, LifeFormHumanSpecificSniper::_7_62mmSVD, LifeFormHumanSpecificSniper::_7_62mmTYPE79, LifeFormHumanSpecificSniper::_7_62mmSR25MK11, LifeFormHumanSpecificSniper::_7_62mmAWSR98, LifeFormHumanSpecificSniper::_7_62mmBlaserR93, LifeFormHumanSpecificSniper::_7_62mmM2010EnhancedSniperRifle, LifeFormHumanSpecificSniper::_7_62mmM110SemiAutomaticSniperSystem, LifeFormHumanSpecificSniper::_7_62mmL129A1, LifeFormHumanSpecificSniper::_7_7mmTYPE99, LifeFormHumanSpecificSniper::_8_58mmBlaserR93Tactical2, LifeFormHumanSpecificSniper::_9mmVSSVintorez, LifeFormHumanSpecificSniper::_12_7mmSteyrHS_50, LifeFormHumanSpecificSniper::_12_7mmM82A1ASpecialApplicationsScopedRifle, LifeFormHumanSpecificSniper::_12_7mmNSV, LifeFormHumanSpecificSniper::_12_7mmOSV96, LifeFormHumanSpecificSniper::_12_7mmRangemaster50, LifeFormHumanSpecificSniper::_12_7mmV94, LifeFormHumanSpecificSniper::_12_7mmM107, LifeFormHumanSpecificSniper::_20mmDenelNTW20], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificSubMachineGun", bits: 8, default: 0, codes: &[("Other", 0), ("_5_45mmAKS74U", 10), ("_5_56mmDaewooK1A", 20), ("_9mmDaewooK7", 60), ("_9mmMAC10", 61), ("_9mmMadsenMKII", 62), ("_9mmMiniUzi", 63), ("_9mmModel83SkorpionSMG", 64), ("_9mmMP5A2", 65), ("_9mmMP5N", 66), ("_9mmSterlingSMG", 67), ("_9mmTypeCF05", 68), ("_9mmUzi", 69)], actual: || vec![LifeFormHumanSpecificSubMachineGun::Other as u64, LifeFormHumanSpecificSubMachineGun::_5_45mmAKS74U as u64, LifeFormHumanSpecificSubMachineGun::_5_56mmDaewooK1A as u64, LifeFormHumanSpecificSubMachineGun::_9mmDaewooK7 as u64, LifeFormHumanSpecificSubMachineGun::_9mmMAC10 as u64, LifeFormHumanSpecificSubMachineGun::_9mmMadsenMKII as u64, LifeFormHumanSpecificSubMachineGun::_9mmMiniUzi as u64, LifeFormHumanSpecificSubMachineGun::_9mmModel83SkorpionSMG as u64, LifeFormHumanSpecificSubMachineGun::_9mmMP5A2 as u64, LifeFormHumanSpecificSubMachineGun::_9mmMP5N as u64, LifeFormHumanSpecificSubMachineGun::_9mmSterlingSMG as u64, LifeFormHumanSpecificSubMachineGun::_9mmTypeCF05 as u64, LifeFormHumanSpecificSubMachineGun::_9mmUzi as u64], decode: |mut b| { let v = LifeFormHumanSpecificSubMachineGun::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificSubMachineGun as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificSubMachineGun::Other, LifeFormHumanSpecificSubMachineGun::_5_45mmAKS74U, LifeFormHumanSpecificSubMachineGun::_5_56mmDaewooK1A, LifeFormHumanSpecificSubMachineGun::_9mmDaewooK7, LifeFormHumanSpecificSubMachineGun::_9mmMAC10, LifeFormHumanSpecificSubMachineGun::_9mmMadsenMKII, LifeFormHumanSpecificSubMachineGun::_9mmMiniUzi, LifeFormHumanSpecificSubMachineGun::_9mmModel83SkorpionSMG, LifeFormHumanSpecificSubMachineGun::_9mmMP5A2, LifeFormHumanSpecificSubMachineGun::_9mmMP5N, LifeFormHumanSpecificSubMachineGun::_9mmSterlingSMG, LifeFormHumanSpecificSubMachineGun::_9mmTypeCF05, LifeFormHumanSpecificSubMachineGun::_9mmUzi], |v| v as u64), scan: None },
  EnumRow { name: "AustralianCategoryOverlay", bits: 8, default: 11, codes: &[("AustralianArmy", 11), ("RoyalAustralianAirForce", 13), ("RoyalAustralianNavy", 14), ("AustralianSpecialOperationsCommand", 30), ("AustralianDepartmentofHomeAffairs", 51), ("AustralianFederalPolice", 52)], actual: || vec![AustralianCategoryOverlay::AustralianArmy as u64, AustralianCategoryOverlay::RoyalAustralianAirForce as u64, AustralianCategoryOverlay::RoyalAustralianNavy as u64, AustralianCategoryOverlay::AustralianSpecialOperationsCommand as u64, AustralianCategoryOverlay::AustralianDepartmentofHomeAffairs as u64, AustralianCategoryOverlay::AustralianFederalPolice as u64], decode: |mut b| { let v = AustralianCategoryOverlay::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AustralianCategoryOverlay as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AustralianCategoryOverlay::AustralianArmy, AustralianCategoryOverlay::RoyalAustralianAirForce, AustralianCategoryOverlay::RoyalAustralianNavy, AustralianCategoryOverlay::AustralianSpecialOperationsCommand, AustralianCategoryOverlay::AustralianDepartmentofHomeAffairs, AustralianCategoryOverlay::AustralianFederalPolice], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormCategoriesAfghanistan", bits: 8, default: 11, codes: &[("AfghanNationalArmy", 11), ("AfghanAirForce", 13), ("NationalDirectorateofSecurity", 51), ("AfghanNationalPolice", 52), ("AfghanBorderPolice", 53), ("AfghanNationalCivilOrderPolice", 54), ("AfghanPublicProtectionForce", 55), ("NonMilitaryNationalGovernmentAgencies", 70), ("TerroristCombatant", 101), ("HumanitarianOrganizations", 120), ("RedCrescent", 121), ("Civilian", 130), ("Press", 133)], actual: || vec![LifeFormCategoriesAfghanistan::AfghanNationalArmy as u64, LifeFormCategoriesAfghanistan::AfghanAirForce as u64, LifeFormCategoriesAfghanistan::NationalDirectorateofSecurity as u64, LifeFormCategoriesAfghanistan::AfghanNationalPolice as u64, LifeFormCategoriesAfghanistan::AfghanBorderPolice as u64, LifeFormCategoriesAfghanistan::AfghanNationalCivilOrderPolice as u64, LifeFormCategoriesAfghanistan::AfghanPublicProtectionForce as u64, LifeFormCategoriesAfghanistan::NonMilitaryNationalGovernmentAgencies as u64, LifeFormCategoriesAfghanistan::TerroristCombatant as u64, LifeFormCategoriesAfghanistan::HumanitarianOrganizations as u64, LifeFormCategoriesAfghanistan::RedCrescent as u64, LifeFormCategoriesAfghanistan::Civilian as u64, LifeFormCategoriesAfghanistan::Press as u64], decode: |mut b| { let v = LifeFormCategoriesAfghanistan::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormCategoriesAfghanistan as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormCategoriesAfghanistan::AfghanNationalArmy, LifeFormCategoriesAfghanistan::AfghanAirForce, LifeFormCategoriesAfghanistan::NationalDirectorateofSecurity, LifeFormCategoriesAfghanistan::AfghanNationalPolice, LifeFormCategoriesAfghanistan::AfghanBorderPolice, LifeFormCategoriesAfghanistan::AfghanNationalCivilOrderPolice, LifeFormCategoriesAfghanistan::AfghanPublicProtectionForce, LifeFormCategoriesAfghanistan::NonMilitaryNationalGovernmentAgencies, LifeFormCategoriesAfghanistan::TerroristCombatant, LifeFormCategoriesAfghanistan::HumanitarianOrganizations, LifeFormCategoriesAfghanistan::RedCrescent, LifeFormCategoriesAfghanistan::Civilian, LifeFormCategoriesAfghanistan::Press], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificEquipmentClass", bits: 8, default: 1, codes: &[("SignalSmoke", 1), ("FlashLight", 2), ("SignalMirror", 3), ("IRStrobe", 4), ("IRIlluminator", 5), ("Spotlight", 6)], actual: || vec![LifeFormHumanSpecificEquipmentClass::SignalSmoke as u64, LifeFormHumanSpecificEquipmentClass::FlashLight as u64, LifeFormHumanSpecificEquipmentClass::SignalMirror as u64, LifeFormHumanSpecificEquipmentClass::IRStrobe as u64, LifeFormHumanSpecificEquipmentClass::IRIlluminator as u64, LifeFormHumanSpecificEquipmentClass::Spotlight as u64], decode: |mut b| { let v = LifeFormHumanSpecificEquipmentClass::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificEquipmentClass as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificEquipmentClass::SignalSmoke, LifeFormHumanSpecificEquipmentClass::FlashLight, LifeFormHumanSpecificEquipmentClass::SignalMirror, LifeFormHumanSpecificEquipmentClass::IRStrobe, LifeFormHumanSpecificEquipmentClass::IRIlluminator, LifeFormHumanSpecificEquipmentClass::Spotlight], |v| v as u64), scan: None },
  EnumRow { name: "PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories", bits: 8, default: 1, codes: &[("NarcoSubmarine", 1)], actual: || vec![PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories::NarcoSubmarine as u64], decode: |mut b| { let v = PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories::NarcoSubmarine], |v| v as u64), scan: None },
  EnumRow { name: "LeafCoverage", bits: 8, default: 0, codes: &[("Normal", 0), ("Bare", 1)], actual: || vec![LeafCoverage::Normal as u64, LeafCoverage::Bare as u64], decode: |mut b| { let v = LeafCoverage::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LeafCoverage as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LeafCoverage::Normal, LeafCoverage::Bare], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificAntiMaterielRifles", bits: 8, default: 0, codes: &[("Other", 0), ("_12_7mmAW50", 10), ("_12_7mmAW50F", 11)], actual: || vec![LifeFormHumanSpecificAntiMaterielRifles::Other as u64, LifeFormHumanSpecificAntiMaterielRifles::_12_7mmAW50 as u64, LifeFormHumanSpecificAntiMaterielRifles::_12_7mmAW50F as u64], decode: |mut b| { let v = LifeFormHumanSpecificAntiMaterielRifles::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificAntiMaterielRifles as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificAntiMaterielRifles::Other, LifeFormHumanSpecificAntiMaterielRifles::_12_7mmAW50, LifeFormHumanSpecificAntiMaterielRifles::_12_7mmAW50F], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificShotGuns", bits: 8, default: 0, codes: &[("Other", 0), ("BrowningSuperposedOU", 20), ("BrowningCynergy", 21), ("BrowningAuto5", 22), ("_18_5mmBrowningCitoriOU12Gauge", 23), ("_16_8mmBrowningCitoriOU16Gauge", 24), ("_15_6mmBrowningCitoriOU20Gauge", 25), ("_14mmBrowningCitoriOU28Gauge", 26), ("_10_4mmBrowningCitoriOU_410Bore", 27), ("_18_5mmBrowningDoubleAutomatic12Gauge", 28), ("_18_5mmIthaca3712Gauge", 29), ("_16_8mmIthaca3716Gauge", 30), ("_15_6mmIthaca3720Gauge", 31), ("_14mmIthaca3728Gauge", 32), ("_19_7mmIthacaMag10SA10Gauge", 33), ("_19_7mmMarlinModel5510Gauge", 34), ("_18_5mmMarlinModel5512Gauge", 35), ("_16_8mmMarlinModel5516Gauge", 36), ("_15_6mmMarlinModel5520Gauge", 37), ("_18_5mmMossberg50012Gauge", 38), ("_15_6mmMossberg50020Gauge", 39), ("_10_4mmMossberg500_410Bore", 40), ("_18_5mmMossberg59012Gauge", 41), ("_15_6mmMossberg59020Gauge", 42), ("_10_4mmMossberg590_410Bore", 43), ("_18_5mmMossberg930SA12Gauge", 44), ("RemingtonModel11SA", 45), ("RemingtonModel1012Gauge", 46), ("_15_6mmRemingtonModel1720Gauge", 47), ("RemingtonModel31", 48), ("RemingtonModel1148SA", 49), ("_18_5mmRemington87012Gauge", 50), ("_16_8mmRemington87016Gauge", 51), ("_15_6mmRemington87020Gauge", 52), ("_14mmRemington87028Gauge", 53), ("_10_4mmRemington870_410Bore", 54), ("RemingtonModel58SA", 55), ("_18_5mmRemington878SA12Gauge", 56), ("_18_5mmRemingtonModel1100SA12Gauge", 57), ("_16_8mmRemingtonModel1100SA16Gauge", 58), ("_15_6mmRemingtonModel1100SA20Gauge", 59), ("_14mmRemingtonModel1100SA28Gauge", 60), ("_10_4mmRemingtonModel1100SA_410Bore", 61), ("_18_5mmRemington1187SA12Gauge", 62), ("_15_6mmRemington1187SA20Gauge", 63), ("_19_7mmRemingtonModelSP10SA10Gauge", 64), ("_18_5mmRemington88712Gauge", 65), ("_18_5mmRemingtonSparta100SxS12Gauge", 70), ("_15_6mmRemingtonSparta100SxS20Gauge", 71), ("_10_4mmRemingtonSparta100SxS_410Bore", 72), ("_18_5mmRemingtonSpartan310OU12Gauge", 73), ("_15_6mmRemingtonSpartan310OU20Gauge", 74), ("_14mmRemingtonSpartan310OU28Gauge", 75), ("_10_4mmRemingtonSpartan310OU_410Bore", 76), ("_18_5mmRemingtonSpartan453SA12Gauge", 77), ("_18_5mmWinchesterModel120012Gauge", 80), ("_16_8mmWinchesterModel120016Gauge", 81), ("_15_6mmWinchesterModel120020Gauge", 82), ("WinchesterModel18871901", 83), ("WinchesterModel1897", 84), ("WinchesterModel1912", 85), ("WinchesterModel21SxS", 86), ("WinchesterModel37SxS", 87), ("_18_5mmHRUltraslugSxS12Gauge", 88), ("_15_6mmHRUltraslugSxS20Gauge", 89), ("_18_5mmCienerUltimateOU12Gauge", 90), ("_18_5mmCoachGunSxSDoubleBarrel12Gauge", 91), ("_18_5mmRugerGoldLabelSxS12Gauge", 92), ("_18_5mmHighStandardModel10SA12Gauge", 93), ("_18_5mmKelTexKSG12Gauge", 94), ("_18_5KACMasterkey12Gauge", 95), ("_18_5mmM26M_A_S_S_12Gauge", 96), ("_18_5mmSRMArmsM1216SA12Gauge", 97), ("_18_5mmAA12FAAtchissonAssault", 98), ("_18_5mmPancorJackhammerFA12Gauge", 99), ("_18_5mmUSAS12FA12Gauge", 110), ("_18_5mmMAULSA12Gauge", 111), ("_18_5mmFNSLPSA12Gauge", 112), ("_18_5mmFNTPS12Gauge", 113), ("_18_5mmENARMPentagunSA12Gauge", 115), ("StevensModel520620", 116), ("StoegerCoachGunSxS", 117), ("StoegerCondorOU", 118), ("_18_5mmArmscorModel30SA12Gauge", 120), ("WeatherbySA08SA", 121), ("_18_5mmFabarmSDASSTactical12Gauge", 122), ("_18_5mmMAG712Gauge", 123), ("_18_5mmNeostead12Gauge", 124), ("_18_5mmArmselStrikerSA12Gauge", 125), ("_18_5mmParkerHaleRogunSA12Gauge", 127), ("_26mmRGA86Revolver", 130), ("_18_5mmSjorgrenSA12Gauge", 131), ("_18_5mmAkdalMKA1919SA12Gauge", 132), ("_18_5mmRetayMasaiMaraSA12Gauge", 133), ("_18_5mmSafirT14SA12Gauge", 134), ("_18_5mmBenelliM1Super90SA12Gauge", 150), ("_15_6mmBenelliM1Super90SA20Gauge", 151), ("_18_5mmBenelliM3Super90SA12Gauge", 152), ("_15_6mmBenelliM3Super90SA20Gauge", 153), ("_18_5mmBenelliM4Super90SA12Gauge", 154), ("_18_5mmBenelliNova12Gauge", 155), ("_15_6mmBenelliNove20Gauge", 156), ("_18_5mmBenelliRaffaelloSA12Gauge", 157), ("_18_5mmBenelliSupernova12Gauge", 158), ("_18_5mmBenelliVinciSA12Gauge", 159), ("_18_5mmBeretta1201FPSA12Gauge", 160), ("_18_5mmBeretta682OU12Gauge", 161), ("_15_6mmBeretta682OU20Gauge", 162), ("_14mmBeretta682OU28Gauge", 163), ("_10_4mmBeretta682OU_410Bore", 164), ("_18_5mmBerettaA303SA12Gauge", 165), ("_18_5mmBerettaAL391SA12Gauge", 166), ("_15_6mmBerettaAL391SA20Gauge", 167), ("_18_5mmBerettaDT10OU12Gauge", 168), ("BerettaSilverPigeonOU", 169), ("_18_5mmBerettaXtrema2SA12Gauge", 170), ("_15_6mmFranchiAL48SA20Gauge", 171), ("_14mmFranchiAL48SA28Gauge", 172), ("_10_4mmFranchimod_410FA_410Bore", 173), ("_18_5mmFranchiSPAS12SA12Gauge", 174), ("_18_5mmFranchiSPAS15SA12Gauge", 175), ("_18_5mmValtroPM5PM535012Gauge", 176), ("BlazerF3OU", 180), ("_18_5mmHKFABARMFP612Gauge", 181), ("_18_5mmHKCAWSFA12Gauge", 182), ("_18_5mmBaikalMP153SA12Gauge", 200), ("_18_5mmBandayevskyRB1212Gauge", 201), ("_18_5mmMolotBekasM12Gauge", 202), ("_16_8mmMolotBekasM16Gauge", 203), ("_18_5mmTOZ19412Gauge", 204), ("_23mmKS23", 205), ("MTs255Revoler12Gauge", 206), ("_18_5mmRMB9312Gauge", 207), ("_18_5mmSaiga12SA12Gauge", 208), ("_15_6mmSaiga12SA20Gauge", 209), ("_10_4mmSaiga12SA_410Bore", 210), ("_18_5mmVepr12SA12Gauge", 211), ("_18_5mmFort50012Gauge", 212), ("_18_5mmNorincoHP9112Gauge", 220)], actual: || vec![LifeFormHumanSpecificShotGuns::Other as u64, LifeFormHumanSpecificShotGuns::BrowningSuperposedOU as u64, LifeFormHumanSpecificShotGuns::BrowningCynergy as u64, LifeFormHumanSpecificShotGuns::BrowningAuto5 as u64, LifeFormHumanSpecificShotGuns::_18_5mmBrowningCitoriOU12Gauge as u64, LifeFormHumanSpecificShotGuns::_16_8mmBrowningCitoriOU16Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmBrowningCitoriOU20Gauge as u64, LifeFormHumanSpecificShotGuns::_14mmBrowningCitoriOU28Gauge as u64, LifeFormHumanSpecificShotGuns::_10_4mmBrowningCitoriOU_410Bore as u64, LifeFormHumanSpecificShotGuns::_18_5mmBrowningDoubleAutomatic12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmIthaca3712Gauge as u64, LifeFormHumanSpecificShotGuns::_16_8mmIthaca3716Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmIthaca3720Gauge as u64, LifeFormHumanSpecificShotGuns::_14mmIthaca3728Gauge as u64, LifeFormHumanSpecificShotGuns::_19_7mmIthacaMag10SA10Gauge as u64, LifeFormHumanSpecificShotGuns::_19_7mmMarlinModel5510Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmMarlinModel5512Gauge as u64, LifeFormHumanSpecificShotGuns::_16_8mmMarlinModel5516Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmMarlinModel5520Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmMossberg50012Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmMossberg50020Gauge as u64, LifeFormHumanSpecificShotGuns::_10_4mmMossberg500_410Bore as u64, LifeFormHumanSpecificShotGuns::_18_5mmMossberg59012Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmMossberg59020Gauge as u64, LifeFormHumanSpecificShotGuns::_10_4mmMossberg590_410Bore as u64, LifeFormHumanSpecificShotGuns::_18_5mmMossberg930SA12Gauge as u64, LifeFormHumanSpecificShotGuns::RemingtonModel11SA as u64, LifeFormHumanSpecificShotGuns::RemingtonModel1012Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmRemingtonModel1720Gauge as u64, LifeFormHumanSpecificShotGuns::RemingtonModel31 as u64, LifeFormHumanSpecificShotGuns::RemingtonModel1148SA as u64, LifeFormHumanSpecificShotGuns::_18_5mmRemington87012Gauge as u64, LifeFormHumanSpecificShotGuns::_16_8mmRemington87016Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmRemington87020Gauge as u64, LifeFormHumanSpecificShotGuns::_14mmRemington87028Gauge as u64, LifeFormHumanSpecificShotGuns::_10_4mmRemington870_410Bore as u64, LifeFormHumanSpecificShotGuns::RemingtonModel58SA as u64, LifeFormHumanSpecificShotGuns::_18_5mmRemington878SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmRemingtonModel1100SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_16_8mmRemingtonModel1100SA16Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmRemingtonModel1100SA20Gauge as u64, LifeFormHumanSpecificShotGuns::_14mmRemingtonModel1100SA28Gauge as u64, LifeFormHumanSpecificShotGuns::_10_4mmRemingtonModel1100SA_410Bore as u64, LifeFormHumanSpecificShotGuns::_18_5mmRemington1187SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmRemington1187SA20Gauge as u64, LifeFormHumanSpecificShotGuns::_19_7mmRemingtonModelSP10SA10Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmRemington88712Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmRemingtonSparta100SxS12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmRemingtonSparta100SxS20Gauge as u64, LifeFormHumanSpecificShotGuns::_10_4mmRemingtonSparta100SxS_410Bore as u64, LifeFormHumanSpecificShotGuns::_18_5mmRemingtonSpartan310OU12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmRemingtonSpartan310OU20Gauge as u64, LifeFormHumanSpecificShotGuns::_14mmRemingtonSpartan310OU28Gauge as u64, LifeFormHumanSpecificShotGuns::_10_4mmRemingtonSpartan310OU_410Bore as u64, LifeFormHumanSpecificShotGuns::_18_5mmRemingtonSpartan453SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmWinchesterModel120012Gauge as u64, LifeFormHumanSpecificShotGuns::_16_8mmWinchesterModel120016Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmWinchesterModel120020Gauge as u64, LifeFormHumanSpecificShotGuns::WinchesterModel18871901 as u64, LifeFormHumanSpecificShotGuns::WinchesterModel1897 as u64, LifeFormHumanSpecificShotGuns::WinchesterModel1912 as u64, LifeFormHumanSpecificShotGuns::WinchesterModel21SxS as u64, LifeFormHumanSpecificShotGuns::WinchesterModel37SxS as u64, LifeFormHumanSpecificShotGuns::_18_5mmHRUltraslugSxS12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmHRUltraslugSxS20Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmCienerUltimateOU12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmCoachGunSxSDoubleBarrel12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmRugerGoldLabelSxS12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmHighStandardModel10SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmKelTexKSG12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5KACMasterkey12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmM26M_A_S_S_12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmSRMArmsM1216SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmAA12FAAtchissonAssault as u64, LifeFormHumanSpecificShotGuns::_18_5mmPancorJackhammerFA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmUSAS12FA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmMAULSA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmFNSLPSA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmFNTPS12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmENARMPentagunSA12Gauge as u64, LifeFormHumanSpecificShotGuns::StevensModel520620 as u64, LifeFormHumanSpecificShotGuns::StoegerCoachGunSxS as u64, LifeFormHumanSpecificShotGuns::StoegerCondorOU as u64, LifeFormHumanSpecificShotGuns::_18_5mmArmscorModel30SA12Gauge as u64, LifeFormHumanSpecificShotGuns::WeatherbySA08SA as u64, LifeFormHumanSpecificShotGuns::_18_5mmFabarmSDASSTactical12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmMAG712Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmNeostead12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmArmselStrikerSA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmParkerHaleRogunSA12Gauge as u64, LifeFormHumanSpecificShotGuns::_26mmRGA86Revolver as u64, LifeFormHumanSpecificShotGuns::_18_5mmSjorgrenSA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmAkdalMKA1919SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmRetayMasaiMaraSA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmSafirT14SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBenelliM1Super90SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmBenelliM1Super90SA20Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBenelliM3Super90SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmBenelliM3Super90SA20Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBenelliM4Super90SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBenelliNova12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmBenelliNove20Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBenelliRaffaelloSA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBenelliSupernova12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBenelliVinciSA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBeretta1201FPSA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBeretta682OU12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmBeretta682OU20Gauge as u64, LifeFormHumanSpecificShotGuns::_14mmBeretta682OU28Gauge as u64, LifeFormHumanSpecificShotGuns::_10_4mmBeretta682OU_410Bore as u64, LifeFormHumanSpecificShotGuns::_18_5mmBerettaA303SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBerettaAL391SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmBerettaAL391SA20Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBerettaDT10OU12Gauge as u64, LifeFormHumanSpecificShotGuns::BerettaSilverPigeonOU as u64, LifeFormHumanSpecificShotGuns::_18_5mmBerettaXtrema2SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmFranchiAL48SA20Gauge as u64, LifeFormHumanSpecificShotGuns::_14mmFranchiAL48SA28Gauge as u64, LifeFormHumanSpecificShotGuns::_10_4mmFranchimod_410FA_410Bore as u64, LifeFormHumanSpecificShotGuns::_18_5mmFranchiSPAS12SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmFranchiSPAS15SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmValtroPM5PM535012Gauge as u64, LifeFormHumanSpecificShotGuns::BlazerF3OU as u64, LifeFormHumanSpecificShotGuns::_18_5mmHKFABARMFP612Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmHKCAWSFA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBaikalMP153SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmBandayevskyRB1212Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmMolotBekasM12Gauge as u64, LifeFormHumanSpecificShotGuns::_16_8mmMolotBekasM16Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmTOZ19412Gauge as u64, LifeFormHumanSpecificShotGuns::_23mmKS23 as u64, LifeFormHumanSpecificShotGuns::MTs255Revoler12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmRMB9312Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmSaiga12SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_15_6mmSaiga12SA20Gauge as u64, LifeFormHumanSpecificShotGuns::_10_4mmSaiga12SA_410Bore as u64, LifeFormHumanSpecificShotGuns::_18_5mmVepr12SA12Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmFort50012Gauge as u64, LifeFormHumanSpecificShotGuns::_18_5mmNorincoHP9112Gauge as u64], decode: |mut b| { let v = LifeFormHumanSpecificShotGuns::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificShotGuns as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificShotGuns::Other, LifeFormHumanSpecificShotGuns::BrowningSuperposedOU, LifeFormHumanSpecificShotGuns::BrowningCynergy, LifeFormHumanSpecificShotGuns::BrowningAuto5, LifeFormHumanSpecificShotGuns::_18_5mmBrowningCitoriOU12Gauge, LifeFormHumanSpecificShotGuns::_16_8mmBrowningCitoriOU16Gauge, LifeFormHumanSpecificShotGuns::_15_6mmBrowningCitoriOU20Gauge, LifeFormHumanSpecificShotGuns::_14mmBrowningCitoriOU28Gauge, LifeFormHumanSpecificShotGuns::_10_4mmBrowningCitoriOU_410Bore, LifeFormHumanSpecificShotGuns::_18_5mmBrowningDoubleAutomatic12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmIthaca3712Gauge, LifeFormHumanSpecificShotGuns::_16_8mmIthaca3716Gauge, LifeFormHumanSpecificShotGuns::_15_6mmIthaca3720Gauge, LifeFormHumanSpecificShotGuns::_14mmIthaca3728Gauge, LifeFormHumanSpecificShotGuns::_19_7mmIthacaMag10SA10Gauge, LifeFormHumanSpecificShotGuns::_19_7mmMarlinModel5510Gauge, LifeFormHumanSpecificShotGuns::_18_5mmMarlinModel5512Gauge, LifeFormHumanSpecificShotGuns::_16_8mmMarlinModel5516Gauge, LifeFormHumanSpecificShotGuns::_15_6mmMarlinModel5520Gauge, LifeFormHumanSpecificShotGuns::_18_5mmMossberg50012Gauge, LifeFormHumanSpecificShotGuns::_15_6mmMossberg50020Gauge, LifeFormHumanSpecificShotGuns::_10_4mmMossberg500_410Bore, LifeFormHumanSpecificShotGuns::_18_5mmMossberg59012Gauge, LifeFormHumanSpecificShotGuns::_15_6mmMossberg59020Gauge, LifeFormHumanSpecificShotGuns::_10_4mmMossberg590_410Bore, LifeFormHumanSpecificShotGuns::_18_5mmMossberg930SA12Gauge, LifeFormHumanSpecificShotGuns::RemingtonModel11SA, LifeFormHumanSpecificShotGuns::RemingtonModel1012Gauge, LifeFormHumanSpecificShotGuns::_15_6mmRemingtonModel1720Gauge, LifeFormHumanSpecificShotGuns::RemingtonModel31, LifeFormHumanSpecificShotGuns::RemingtonModel1148SA, LifeFormHumanSpecificShotGuns::_18_5mmRemington87012Gauge, LifeFormHumanSpecificShotGuns::_16_8mmRemington87016Gauge, LifeFormHumanSpecificShotGuns::_15_6mmRemington87020Gauge, LifeFormHumanSpecificShotGuns::_14mmRemington87028Gauge, LifeFormHumanSpecificShotGuns::_10_4mmRemington870_410Bore, LifeFormHumanSpecificShotGuns::RemingtonModel58SA, LifeFormHumanSpecificShotGuns::_18_5mmRemington878SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmRemingtonModel1100SA12Gauge, LifeFormHumanSpecificShotGuns::_16_8mmRemingtonModel1100SA16Gauge, LifeFormHumanSpecificShotGuns::_15_6mmRemingtonModel1100SA20Gauge, LifeFormHumanSpecificShotGuns::_14mmRemingtonModel1100SA28Gauge, LifeFormHumanSpecificShotGuns::_10_4mmRemingtonModel1100SA_410Bore, LifeFormHumanSpecificShotGuns::_18_5mmRemington1187SA12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmRemington1187SA20Gauge, LifeFormHumanSpecificShotGuns::_19_7mmRemingtonModelSP10SA10Gauge, LifeFormHumanSpecificShotGuns::_18_5mmRemington88712Gauge, LifeFormHumanSpecificShotGuns::_18_5mmRemingtonSparta100SxS12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmRemingtonSparta100SxS20Gauge, LifeFormHumanSpecificShotGuns::_10_4mmRemingtonSparta100SxS_410Bore, LifeFormHumanSpecificShotGuns::_18_5mmRemingtonSpartan310OU12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmRemingtonSpartan310OU20Gauge, LifeFormHumanSpecificShotGuns::_14mmRemingtonSpartan310OU28Gauge, LifeFormHumanSpecificShotGuns::_10_4mmRemingtonSpartan310OU_410Bore, LifeFormHumanSpecificShotGuns::_18_5mmRemingtonSpartan453SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmWinchesterModel120012Gauge, LifeFormHumanSpecificShotGuns::_16_8mmWinchesterModel120016Gauge, LifeFormHumanSpecificShotGuns::_15_6mmWinchesterModel120020Gauge, LifeFormHumanSpecificShotGuns::WinchesterModel18871901, LifeFormHumanSpecificShotGuns::WinchesterModel1897, LifeFormHumanSpecificShotGuns::WinchesterModel1912, LifeFormHumanSpecificShotGuns::WinchesterModel21SxS, LifeFormHumanSpecificShotGuns::WinchesterModel37SxS, LifeFormHumanSpecificShotGuns::_18_5mmHRUltraslugSxS12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmHRUltraslugSxS20Gauge, LifeFormHumanSpecificShotGuns::_18_5mmCienerUltimateOU12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmCoachGunSxSDoubleBarrel12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmRugerGoldLabelSxS12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmHighStandardModel10SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmKelTexKSG12Gauge, LifeFormHumanSpecificShotGuns::_18_5KACMasterkey12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmM26M_A_S_S_12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmSRMArmsM1216SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmAA12FAAtchissonAssault, LifeFormHumanSpecificShotGuns::_18_5mmPancorJackhammerFA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmUSAS12FA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmMAULSA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmFNSLPSA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmFNTPS12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmENARMPentagunSA12Gauge, LifeFormHumanSpecificShotGuns::StevensModel520620, LifeFormHumanSpecificShotGuns::StoegerCoachGunSxS, LifeFormHumanSpecificShotGuns::StoegerCondorOU, LifeFormHumanSpecificShotGuns::_18_5mmArmscorModel30SA12Gauge, LifeFormHumanSpecificShotGuns::WeatherbySA08SA, LifeFormHumanSpecificShotGuns::_18_5mmFabarmSDASSTactical12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmMAG712Gauge, LifeFormHumanSpecificShotGuns::_18_5mmNeostead12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmArmselStrikerSA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmParkerHaleRogunSA12Gauge, LifeFormHumanSpecificShotGuns::_26mmRGA86Revolver, LifeFormHumanSpecificShotGuns::_18_5mmSjorgrenSA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmAkdalMKA1919SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmRetayMasaiMaraSA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmSafirT14SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBenelliM1Super90SA12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmBenelliM1Super90SA20Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBenelliM3Super90SA12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmBenelliM3Super90SA20Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBenelliM4Super90SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBenelliNova12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmBenelliNove20Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBenelliRaffaelloSA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBenelliSupernova12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBenelliVinciSA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBeretta1201FPSA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBeretta682OU12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmBeretta682OU20Gauge, LifeFormHumanSpecificShotGuns::_14mmBeretta682OU28Gauge, LifeFormHumanSpecificShotGuns::_10_4mmBeretta682OU_410Bore, LifeFormHumanSpecificShotGuns::_18_5mmBerettaA303SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBerettaAL391SA12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmBerettaAL391SA20Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBerettaDT10OU12Gauge, LifeFormHumanSpecificShotGuns::BerettaSilverPigeonOU, LifeFormHumanSpecificShotGuns::_18_5mmBerettaXtrema2SA12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmFranchiAL48SA20Gauge, LifeFormHumanSpecificShotGuns::_14mmFranchiAL48SA28Gauge, LifeFormHumanSpecificShotGuns::_10_4mmFranchimod_410FA_410Bore, LifeFormHumanSpecificShotGuns::_18_5mmFranchiSPAS12SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmFranchiSPAS15SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmValtroPM5PM535012Gauge, LifeFormHumanSpecificShotGuns::BlazerF3OU, LifeFormHumanSpecificShotGuns::_18_5mmHKFABARMFP612Gauge, LifeFormHumanSpecificShotGuns::_18_5mmHKCAWSFA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBaikalMP153SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmBandayevskyRB1212Gauge, LifeFormHumanSpecificShotGuns::_18_5mmMolotBekasM12Gauge, LifeFormHumanSpecificShotGuns::_16_8mmMolotBekasM16Gauge, LifeFormHumanSpecificShotGuns::_18_5mmTOZ19412Gauge, LifeFormHumanSpecificShotGuns::_23mmKS23, LifeFormHumanSpecificShotGuns::MTs255Revoler12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmRMB9312Gauge, LifeFormHumanSpecificShotGuns::_18_5mmSaiga12SA12Gauge, LifeFormHumanSpecificShotGuns::_15_6mmSaiga12SA20Gauge, LifeFormHumanSpecificShotGuns::_10_4mmSaiga12SA_410Bore, LifeFormHumanSpecificShotGuns::_18_5mmVepr12SA12Gauge, LifeFormHumanSpecificShotGuns::_18_5mmFort50012Gauge, LifeFormHumanSpecificShotGuns::_18_5mmNorincoHP9112Gauge], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificMortars", bits: 8, default: 0, codes: &[("Others", 0), ("_60mmM224", 30), ("_81mmF2", 50), ("_81mmL16", 51), ("_81mmM252", 52)], actual: || vec![LifeFormHumanSpecificMortars::Others as u64, LifeFormHumanSpecificMortars::_60mmM224 as u64, LifeFormHumanSpecificMortars::_81mmF2 as u64, LifeFormHumanSpecificMortars::_81mmL16 as u64, LifeFormHumanSpecificMortars::_81mmM252 as u64], decode: |mut b| { let v = LifeFormHumanSpecificMortars::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificMortars as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificMortars::Others, LifeFormHumanSpecificMortars::_60mmM224, LifeFormHumanSpecificMortars::_81mmF2, LifeFormHumanSpecificMortars::_81mmL16, LifeFormHumanSpecificMortars::_81mmM252], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificHandGuns", bits: 8, default: 0, codes: &[("Other", 0), ("_5_45mmPSM", 1), ("_9mmMK3SLP", 30), ("_9mmBeretta92S92FS", 31), ("_9mmHKUSP", 32), ("_9mmStechkinAPS", 33), ("_9mmMakarovPM", 34), ("_9mmSmithandWessonSD", 35), ("_9mmGlock17", 36), ("_9mmSIGSauerM17", 37), ("_9mmSIGPro", 38), ("_9mmSmithandWessonSW1911", 39), ("_9mmSmithandWesson5900series", 40), ("_45CalM1911", 41), ("_9_07mmRugerGP100", 50), ("_10mmGlock20", 60)], actual: || vec![LifeFormHumanSpecificHandGuns::Other as u64, LifeFormHumanSpecificHandGuns::_5_45mmPSM as u64, LifeFormHumanSpecificHandGuns::_9mmMK3SLP as u64, LifeFormHumanSpecificHandGuns::_9mmBeretta92S92FS as u64, LifeFormHumanSpecificHandGuns::_9mmHKUSP as u64, LifeFormHumanSpecificHandGuns::_9mmStechkinAPS as u64, LifeFormHumanSpecificHandGuns::_9mmMakarovPM as u64, LifeFormHumanSpecificHandGuns::_9mmSmithandWessonSD as u64, LifeFormHumanSpecificHandGuns::_9mmGlock17 as u64, LifeFormHumanSpecificHandGuns::_9mmSIGSauerM17 as u64, LifeFormHumanSpecificHandGuns::_9mmSIGPro as u64, LifeFormHumanSpecificHandGuns::_9mmSmithandWessonSW1911 as u64, LifeFormHumanSpecificHandGuns::_9mmSmithandWesson5900series as u64, LifeFormHumanSpecificHandGuns::_45CalM1911 as u64, LifeFormHumanSpecificHandGuns::_9_07mmRugerGP100 as u64, LifeFormHumanSpecificHandGuns::_10mmGlock20 as u64], decode: |mut b| { let v = LifeFormHumanSpecificHandGuns::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificHandGuns as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificHandGuns::Other, LifeFormHumanSpecificHandGuns::_5_45mmPSM, LifeFormHumanSpecificHandGuns::_9mmMK3SLP, LifeFormHumanSpecificHandGuns::_9mmBeretta92S92FS, LifeFormHumanSpecificHandGuns::_9mmHKUSP, LifeFormHumanSpecificHandGuns::_9mmStechkinAPS, LifeFormHumanSpecificHandGuns::_9mmMakarovPM, LifeFormHumanSpecificHandGuns::_9mmSmithandWessonSD, LifeFormHumanSpecificHandGuns::_9mmGlock17, LifeFormHumanSpecificHandGuns::_9mmSIGSauerM17, LifeFormHumanSpecificHandGuns::_9mmSIGPro, LifeFormHumanSpecificHandGuns::_9mmSmithandWessonSW1911, LifeFormHumanSpecificHandGuns::_9mmSmithandWesson5900series, LifeFormHumanSpecificHandGuns::_45CalM1911, LifeFormHumanSpecificHandGuns::_9_07mmRugerGP100, LifeFormHumanSpecificHandGuns::_10mmGlock20], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificWeaponNonspecific", bits: 8, default: 0, codes: &[("Other", 0), ("Knife", 10), ("Machete", 50), ("ExplosiveVest", 100), ("M18A1Claymore", 150)], actual: || vec![LifeFormHumanSpecificWeaponNonspecific::Other as u64, LifeFormHumanSpecificWeaponNonspecific::Knife as u64, LifeFormHumanSpecificWeaponNonspecific::Machete as u64, LifeFormHumanSpecificWeaponNonspecific::ExplosiveVest as u64, LifeFormHumanSpecificWeaponNonspecific::M18A1Claymore as u64], decode: |mut b| { let v = LifeFormHumanSpecificWeaponNonspecific::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificWeaponNonspecific as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificWeaponNonspecific::Other, LifeFormHumanSpecificWeaponNonspecific::Knife, LifeFormHumanSpecificWeaponNonspecific::Machete, LifeFormHumanSpecificWeaponNonspecific::ExplosiveVest, LifeFormHumanSpecificWeaponNonspecific::M18A1Claymore], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificGrenadeLaunchers", bits: 8, default: 0, codes: &[("Other", 0), ("_40x46mmArsenalUGGLM1", 1), ("_40x46mmArsenalMSGL", 2), ("_40mmVOGArsenalMSGL", 3), ("_40x46mmArsenalUBGLM16", 4), ("_40x46mmArsenalUBGLM8", 5), ("_40x46mmArsenalUBGLM7", 6), ("_30mmBS1Tishina", 10), ("_40mmBTS203", 11), ("_40mmIndumilIMC40", 12), ("_40mmVOGBG15", 20), ("_40mmVOGGP25Kostoyor", 21), ("_40mmVOGGP30Obuvka", 22), ("_40mmVOGGP34", 23), ("_40mmVOGRGM40Kastet", 24), ("_40mmVOGRG6", 25), ("_40x46mmM79", 30), ("_40x46mmM203", 31), ("_40x36mmM320", 32), ("_40x46mmCIS40GL", 35), ("_40x46mmEAGLEGL", 36), ("_40x46mmHKAG36", 37), ("_40x46mmHKAGCGLM", 38), ("_40x46mmHK69A1", 39), ("_40x46mmBerettaGLX160", 40), ("_40x46mmARDEUBGL", 41), ("_40x46mmXML148", 42), ("_40x46mmChinaLakeGL", 43), ("_40x46mmHawkMM1", 44), ("_25x40mmXM25CDTE", 50), ("_37mmMilkor3738LLStopper", 60), ("_40mmMilkor40GL", 61), ("_40mmMilkorMGL", 62), ("_40x47mmPalladwz1974", 65), ("_40x47mmPalladwz1983", 66), ("UGL200CanisterRWGL3", 70), ("_20x30mmSTDaewooK11", 80), ("_35mmType91BreechLoadGL", 90), ("_40x53mmCZW40", 95), ("_45mmDP64", 100), ("_20x42mmNeopupPAW20", 105)], actual: || vec![LifeFormHumanSpecificGrenadeLaunchers::Other as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmArsenalUGGLM1 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmArsenalMSGL as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGArsenalMSGL as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmArsenalUBGLM16 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmArsenalUBGLM8 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmArsenalUBGLM7 as u64, LifeFormHumanSpecificGrenadeLaunchers::_30mmBS1Tishina as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmBTS203 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmIndumilIMC40 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGBG15 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGGP25Kostoyor as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGGP30Obuvka as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGGP34 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGRGM40Kastet as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGRG6 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmM79 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmM203 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x36mmM320 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmCIS40GL as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmEAGLEGL as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmHKAG36 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmHKAGCGLM as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmHK69A1 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmBerettaGLX160 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmARDEUBGL as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmXML148 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmChinaLakeGL as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmHawkMM1 as u64, LifeFormHumanSpecificGrenadeLaunchers::_25x40mmXM25CDTE as u64, LifeFormHumanSpecificGrenadeLaunchers::_37mmMilkor3738LLStopper as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmMilkor40GL as u64, LifeFormHumanSpecificGrenadeLaunchers::_40mmMilkorMGL as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x47mmPalladwz1974 as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x47mmPalladwz1983 as u64, LifeFormHumanSpecificGrenadeLaunchers::UGL200CanisterRWGL3 as u64, LifeFormHumanSpecificGrenadeLaunchers::_20x30mmSTDaewooK11 as u64, LifeFormHumanSpecificGrenadeLaunchers::_35mmType91BreechLoadGL as u64, LifeFormHumanSpecificGrenadeLaunchers::_40x53mmCZW40 as u64, LifeFormHumanSpecificGrenadeLaunchers::_45mmDP64 as u64, LifeFormHumanSpecificGrenadeLaunchers::_20x42mmNeopupPAW20 as u64], decode: |mut b| { let v = LifeFormHumanSpecificGrenadeLaunchers::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificGrenadeLaunchers as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificGrenadeLaunchers::Other, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmArsenalUGGLM1, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmArsenalMSGL, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGArsenalMSGL, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmArsenalUBGLM16, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmArsenalUBGLM8, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmArsenalUBGLM7, LifeFormHumanSpecificGrenadeLaunchers::_30mmBS1Tishina, LifeFormHumanSpecificGrenadeLaunchers::_40mmBTS203, LifeFormHumanSpecificGrenadeLaunchers::_40mmIndumilIMC40, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGBG15, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGGP25Kostoyor, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGGP30Obuvka, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGGP34, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGRGM40Kastet, LifeFormHumanSpecificGrenadeLaunchers::_40mmVOGRG6, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmM79, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmM203, LifeFormHumanSpecificGrenadeLaunchers::_40x36mmM320, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmCIS40GL, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmEAGLEGL, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmHKAG36, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmHKAGCGLM, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmHK69A1, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmBerettaGLX160, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmARDEUBGL, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmXML148, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmChinaLakeGL, LifeFormHumanSpecificGrenadeLaunchers::_40x46mmHawkMM1, LifeFormHumanSpecificGrenadeLaunchers::_25x40mmXM25CDTE, LifeFormHumanSpecificGrenadeLaunchers::_37mmMilkor3738LLStopper, LifeFormHumanSpecificGrenadeLaunchers::_40mmMilkor40GL, LifeFormHumanSpecificGrenadeLaunchers::_40mmMilkorMGL, LifeFormHumanSpecificGrenadeLaunchers::_40x47mmPalladwz1974, LifeFormHumanSpecificGrenadeLaunchers::_40x47mmPalladwz1983, LifeFormHumanSpecificGrenadeLaunchers::UGL200CanisterRWGL3, LifeFormHumanSpecificGrenadeLaunchers::_20x30mmSTDaewooK11, LifeFormHumanSpecificGrenadeLaunchers::_35mmType91BreechLoadGL, LifeFormHumanSpecificGrenadeLaunchers::_40x53mmCZW40, LifeFormHumanSpecificGrenadeLaunchers::_45mmDP64, LifeFormHumanSpecificGrenadeLaunchers::_20x42mmNeopupPAW20], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificMachineGuns", bits: 8, default: 0, codes: &[("Other", 0), ("_5_56x45mmXM214MicrogunSixPak", 10), ("_7_62x51mmM134XM196Minigun", 11), ("_5_56x45mmM249FNMinimiSAWLMG", 20), ("_5_56x45mmFNMinimiMk3LMG", 21), ("_7_62x51mmFNMinimi7_62Mk3GPMG", 22), ("_7_62x63mmM1941Johnson", 25), ("_7_62x63mmM1918BAR", 26), ("_7_62x51mmM1919A4Mk21Mod0BrowningMMG", 27), ("_7_62x63mmM1919A6BrowningMMG", 28), ("_7_62x51mmM37BrowningMMG", 29), ("_5_56x45mmAresShrike5_56LMG", 30), ("_5_56x45mmLSATLMG", 31), ("_5_56x45mmCMG1LMG", 32), ("_5_56x45mmCMG2LMG", 33), ("_5_56x45mmStoner63ALMG", 34), ("_5_56x45mmUltimax100LMG", 35), ("_5_56x54mmBerettaAS7090LMG", 36), ("_5_56x45mmCETMEAmeliLMG", 37), ("_5_56x45mmIMINegevLMG", 38), ("_5_56x45mmINSASLMG", 39), ("_5_56x45mmAUGLMG", 40), ("_5_56x45mmAUGHBARLMG", 41), ("_5_56x45mmHKMG4LMG", 43), ("_5_56x45mmHK23GR9LMG", 44), ("_5_56x45mmM27IARSAW", 46), ("_5_56x45mmL86LSW", 47), ("_5_56x45mmDaewooK3LMG", 48), ("_5_56x45mmVectorMiniSSGPMG", 49), ("_7_62x51mmM60GPMG", 50), ("_7_62x51mmM60E3GPMG", 51), ("_7_62x51mmM60E4GPMG", 52), ("_7_62x51mmM60E6GPMG", 53), ("_7_62x51mmMark48GMPG", 55), ("_7_62x51mmM240FNMAG58GPMG", 58), ("_7_62x51mmM240E4M240BGPMG", 59), ("_7_62x51mmM240E1M240DGPMG", 60), ("_7_62x51mmM240GGPMG", 61), ("_7_62x51mmM240E5M240HGPMG", 62), ("_7_62x51mmM240LGPMG", 63), ("_7_62x39mmKk62LMG", 65), ("_7_62x51mmVectorSS77GPMG", 70), ("_7_62x51mmSIGMG7103GPMG", 71), ("_7_62x51mmSterling7_62GMPG", 72), ("_7_62x51mmSumitomoType62GPMG", 73), ("_7_62x51mmDaewooK12GPMG", 74), ("_7_62x51mmMG51GPMG", 75), ("_7_62x51mmRheinmetallMG3", 76), ("_7_62x51mmRheinmetallMG3KWS", 77), ("_7_62x51mmMG5HK121GPMG", 80), ("_7_62x51mmHK21GPMG", 81), ("_7_62x51mmAA52GPMP", 85), ("_7_62x51mmUKM2000GPMG", 86), ("_7_62x54mmUkvz_59GPMG", 88), ("_7_92x57mmMG42GPMG", 89), ("_12_7x99mmM2A1BrowningHMG", 100), ("_12_7x99mmM2HBBrowningHMG", 101), ("_12_7x99mmM2HBQCBBrowningHMG", 102), ("_12_7x99mmM85CHMG", 105), ("_12_7x99mmRheinmetallRMG_50HMG", 108), ("_12_7x99mmHK25HMG", 110), ("_12_7x99mmCIS50MG", 112), ("_5_45x39mmIP2LMG", 120), ("_5_45x39mmNikonovLMG", 121), ("_5_45x39mmM74RPK", 122), ("_7_62x39mmM43RPK", 125), ("_7_62x39mmRPDSAW", 126), ("_7_62x39mmZastavaM72", 127), ("_7_62x39mmType81LMG", 128), ("_7_62x51mmZastavaM77", 135), ("_7_62x54mmPKGPMG", 140), ("_7_62x54mmAEK999GPMP", 141), ("_7_62x54mmPechenegGPMG", 142), ("_7_62x54mmZastavaM84", 143), ("_7_62x54mmType67GPMG", 144), ("_7_62x54mmType80GPMG", 145), ("_12_7x108mmNSVHMG", 150), ("_12_7x108mmKordHMG", 151), ("_12_7x108mmKPD12_7HMG", 152), ("_12_7x108mmZastavaM02CoyotoeHMG", 153), ("_12_7x108mmZastavaM87", 154), ("_12_7x108mmType77HMG", 155), ("_12_7x108mmW85HMG", 156), ("_12_7x108mmType90HMG", 157), ("_5_8x42mmQJY88LMG", 164), ("_5_8x42mmQBB95DBP87LMG", 165), ("_5_56x45mmQBB951LMG", 166)], actual: || vec![LifeFormHumanSpecificMachineGuns::Other as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmXM214MicrogunSixPak as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM134XM196Minigun as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmM249FNMinimiSAWLMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmFNMinimiMk3LMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmFNMinimi7_62Mk3GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x63mmM1941Johnson as u64, LifeFormHumanSpecificMachineGuns::_7_62x63mmM1918BAR as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM1919A4Mk21Mod0BrowningMMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x63mmM1919A6BrowningMMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM37BrowningMMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmAresShrike5_56LMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmLSATLMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmCMG1LMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmCMG2LMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmStoner63ALMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmUltimax100LMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x54mmBerettaAS7090LMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmCETMEAmeliLMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmIMINegevLMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmINSASLMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmAUGLMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmAUGHBARLMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmHKMG4LMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmHK23GR9LMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmM27IARSAW as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmL86LSW as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmDaewooK3LMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmVectorMiniSSGPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM60GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM60E3GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM60E4GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM60E6GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmMark48GMPG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240FNMAG58GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240E4M240BGPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240E1M240DGPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240GGPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240E5M240HGPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240LGPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x39mmKk62LMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmVectorSS77GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmSIGMG7103GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmSterling7_62GMPG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmSumitomoType62GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmDaewooK12GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmMG51GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmRheinmetallMG3 as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmRheinmetallMG3KWS as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmMG5HK121GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmHK21GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmAA52GPMP as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmUKM2000GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x54mmUkvz_59GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_92x57mmMG42GPMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x99mmM2A1BrowningHMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x99mmM2HBBrowningHMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x99mmM2HBQCBBrowningHMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x99mmM85CHMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x99mmRheinmetallRMG_50HMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x99mmHK25HMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x99mmCIS50MG as u64, LifeFormHumanSpecificMachineGuns::_5_45x39mmIP2LMG as u64, LifeFormHumanSpecificMachineGuns::_5_45x39mmNikonovLMG as u64, LifeFormHumanSpecificMachineGuns::_5_45x39mmM74RPK as u64, LifeFormHumanSpecificMachineGuns::_7_62x39mmM43RPK as u64, LifeFormHumanSpecificMachineGuns::_7_62x39mmRPDSAW as u64, LifeFormHumanSpecificMachineGuns::_7_62x39mmZastavaM72 as u64, LifeFormHumanSpecificMachineGuns::_7_62x39mmType81LMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x51mmZastavaM77 as u64, LifeFormHumanSpecificMachineGuns::_7_62x54mmPKGPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x54mmAEK999GPMP as u64, LifeFormHumanSpecificMachineGuns::_7_62x54mmPechenegGPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x54mmZastavaM84 as u64, LifeFormHumanSpecificMachineGuns::_7_62x54mmType67GPMG as u64, LifeFormHumanSpecificMachineGuns::_7_62x54mmType80GPMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x108mmNSVHMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x108mmKordHMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x108mmKPD12_7HMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x108mmZastavaM02CoyotoeHMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x108mmZastavaM87 as u64, LifeFormHumanSpecificMachineGuns::_12_7x108mmType77HMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x108mmW85HMG as u64, LifeFormHumanSpecificMachineGuns::_12_7x108mmType90HMG as u64, LifeFormHumanSpecificMachineGuns::_5_8x42mmQJY88LMG as u64, LifeFormHumanSpecificMachineGuns::_5_8x42mmQBB95DBP87LMG as u64, LifeFormHumanSpecificMachineGuns::_5_56x45mmQBB951LMG as u64], decode: |mut b| { let v = LifeFormHumanSpecificMachineGuns::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificMachineGuns as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificMachineGuns::Other, LifeFormHumanSpecificMachineGuns::_5_56x45mmXM214MicrogunSixPak, LifeFormHumanSpecificMachineGuns::_7_62x51mmM134XM196Minigun, LifeFormHumanSpecificMachineGuns::_5_56x45mmM249FNMinimiSAWLMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmFNMinimiMk3LMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmFNMinimi7_62Mk3GPMG, LifeFormHumanSpecificMachineGuns::_7_62x63mmM1941Johnson, LifeFormHumanSpecificMachineGuns::_7_62x63mmM1918BAR, LifeFormHumanSpecificMachineGuns::_7_62x51mmM1919A4Mk21Mod0BrowningMMG, LifeFormHumanSpecificMachineGuns::_7_62x63mmM1919A6BrowningMMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM37BrowningMMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmAresShrike5_56LMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmLSATLMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmCMG1LMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmCMG2LMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmStoner63ALMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmUltimax100LMG, LifeFormHumanSpecificMachineGuns::_5_56x54mmBerettaAS7090LMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmCETMEAmeliLMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmIMINegevLMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmINSASLMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmAUGLMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmAUGHBARLMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmHKMG4LMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmHK23GR9LMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmM27IARSAW, LifeFormHumanSpecificMachineGuns::_5_56x45mmL86LSW, LifeFormHumanSpecificMachineGuns::_5_56x45mmDaewooK3LMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmVectorMiniSSGPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM60GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM60E3GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM60E4GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM60E6GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmMark48GMPG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240FNMAG58GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240E4M240BGPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240E1M240DGPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240GGPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240E5M240HGPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmM240LGPMG, LifeFormHumanSpecificMachineGuns::_7_62x39mmKk62LMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmVectorSS77GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmSIGMG7103GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmSterling7_62GMPG, LifeFormHumanSpecificMachineGuns::_7_62x51mmSumitomoType62GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmDaewooK12GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmMG51GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmRheinmetallMG3, LifeFormHumanSpecificMachineGuns::_7_62x51mmRheinmetallMG3KWS, LifeFormHumanSpecificMachineGuns::_7_62x51mmMG5HK121GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmHK21GPMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmAA52GPMP, LifeFormHumanSpecificMachineGuns::_7_62x51mmUKM2000GPMG, LifeFormHumanSpecificMachineGuns::_7_62x54mmUkvz_59GPMG, LifeFormHumanSpecificMachineGuns::_7_92x57mmMG42GPMG, LifeFormHumanSpecificMachineGuns::_12_7x99mmM2A1BrowningHMG, LifeFormHumanSpecificMachineGuns::_12_7x99mmM2HBBrowningHMG, LifeFormHumanSpecificMachineGuns::_12_7x99mmM2HBQCBBrowningHMG, LifeFormHumanSpecificMachineGuns::_12_7x99mmM85CHMG, LifeFormHumanSpecificMachineGuns::_12_7x99mmRheinmetallRMG_50HMG, LifeFormHumanSpecificMachineGuns::_12_7x99mmHK25HMG, LifeFormHumanSpecificMachineGuns::_12_7x99mmCIS50MG, LifeFormHumanSpecificMachineGuns::_5_45x39mmIP2LMG, LifeFormHumanSpecificMachineGuns::_5_45x39mmNikonovLMG, LifeFormHumanSpecificMachineGuns::_5_45x39mmM74RPK, LifeFormHumanSpecificMachineGuns::_7_62x39mmM43RPK, LifeFormHumanSpecificMachineGuns::_7_62x39mmRPDSAW, LifeFormHumanSpecificMachineGuns::_7_62x39mmZastavaM72, LifeFormHumanSpecificMachineGuns::_7_62x39mmType81LMG, LifeFormHumanSpecificMachineGuns::_7_62x51mmZastavaM77, LifeFormHumanSpecificMachineGuns::_7_62x54mmPKGPMG, LifeFormHumanSpecificMachineGuns::_7_62x54mmAEK999GPMP, LifeFormHumanSpecificMachineGuns::_7_62x54mmPechenegGPMG, LifeFormHumanSpecificMachineGuns::_7_62x54mmZastavaM84, LifeFormHumanSpecificMachineGuns::_7_62x54mmType67GPMG, LifeFormHumanSpecificMachineGuns::_7_62x54mmType80GPMG, LifeFormHumanSpecificMachineGuns::_12_7x108mmNSVHMG, LifeFormHumanSpecificMachineGuns::_12_7x108mmKordHMG, LifeFormHumanSpecificMachineGuns::_12_7x108mmKPD12_7HMG, LifeFormHumanSpecificMachineGuns::_12_7x108mmZastavaM02CoyotoeHMG, LifeFormHumanSpecificMachineGuns::_12_7x108mmZastavaM87, LifeFormHumanSpecificMachineGuns::_12_7x108mmType77HMG, LifeFormHumanSpecificMachineGuns::_12_7x108mmW85HMG, LifeFormHumanSpecificMachineGuns::_12_7x108mmType90HMG, LifeFormHumanSpecificMachineGuns::_5_8x42mmQJY88LMG, LifeFormHumanSpecificMachineGuns::_5_8x42mmQBB95DBP87LMG, LifeFormHumanSpecificMachineGuns::_5_56x45mmQBB951LMG], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificGrenadeLaunchingMachineGun", bits: 8, default: 0, codes: &[("Other", 0), ("_40x53mmHKGMG", 20), ("_40x53mmMk47Striker", 25), ("_40mmM75", 26), ("_40mmM129", 27), ("_40x46mmXM174", 28), ("_40x46mmMk18Mod0", 29), ("_40x53mmMk19", 30), ("_40x46mmMk20Mod0", 31), ("_30x29mmRAG30SAG30", 40), ("_30x29mmAGS17Plamya", 41), ("_30x29mmAGS30Atlant", 42), ("_40mmVOGAGS40Balkan", 43), ("_40x53mmSBLAG40", 44), ("_40x53mmVektorY3", 50), ("_40x53mmCIS40", 55), ("_40x56mmHowaType96", 60), ("_40x53mmDaewooPrecisionIndustriesK4", 65), ("_25x59mmXM307AdvancedCrewServedWeapon", 70), ("_35x32mmQLZ87", 80)], actual: || vec![LifeFormHumanSpecificGrenadeLaunchingMachineGun::Other as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmHKGMG as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmMk47Striker as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40mmM75 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40mmM129 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x46mmXM174 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x46mmMk18Mod0 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmMk19 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x46mmMk20Mod0 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_30x29mmRAG30SAG30 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_30x29mmAGS17Plamya as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_30x29mmAGS30Atlant as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40mmVOGAGS40Balkan as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmSBLAG40 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmVektorY3 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmCIS40 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x56mmHowaType96 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmDaewooPrecisionIndustriesK4 as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_25x59mmXM307AdvancedCrewServedWeapon as u64, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_35x32mmQLZ87 as u64], decode: |mut b| { let v = LifeFormHumanSpecificGrenadeLaunchingMachineGun::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificGrenadeLaunchingMachineGun as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificGrenadeLaunchingMachineGun::Other, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmHKGMG, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmMk47Striker, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40mmM75, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40mmM129, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x46mmXM174, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x46mmMk18Mod0, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmMk19, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x46mmMk20Mod0, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_30x29mmRAG30SAG30, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_30x29mmAGS17Plamya, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_30x29mmAGS30Atlant, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40mmVOGAGS40Balkan, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmSBLAG40, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmVektorY3, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmCIS40, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x56mmHowaType96, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_40x53mmDaewooPrecisionIndustriesK4, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_25x59mmXM307AdvancedCrewServedWeapon, LifeFormHumanSpecificGrenadeLaunchingMachineGun::_35x32mmQLZ87], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificAntiTankRockets", bits: 8, default: 0, codes: &[("Other", 0), ("_82mmB300", 10), ("_82mmShipon", 11), ("_83mmMK153Mod0SMAW", 12), ("_66mmM72LAW", 20), ("_66mmM72A1LAW", 21), ("_66mmM72A2LAW", 22), ("_66mmM72A3LAW", 23), ("_66mmM72A4LAW", 24), ("_66mmM72A5LAW", 25), ("_66mmM72A6LAW", 26), ("_66mmM72A7LAW", 27), ("_66mmM72E8LAW", 28), ("_66mmM72E9LAW", 29), ("_66mmM72E10LAW", 30), ("_66mmM72ASLAW", 31), ("_94mmLAW80", 35), ("_60mmM1Bazooka", 40), ("_60mmM1A1Bazooka", 41), ("_60mmM9Bazooka", 42), ("_60mmM9A1Bazooka", 43), ("_89mmM20SuperBazooka", 44), ("_89mmM20A1SuperBazooka", 45), ("_89mmM20B1SuperBazooka", 46), ("_89mmM20A1B1SuperBazooka", 47), ("_89mmM25ThreeShotBazooka", 48), ("_89mmInstalazaM65", 49), ("_90mmInstalazaC90", 50), ("_90mmC90CR", 51), ("_90mmC90CRAM", 52), ("_90mmC90CRBK", 53), ("_90mmC90CRIN", 54), ("_60mmPzF3", 60), ("_60mmPzF3IT", 61), ("_60mmPzF3Bunkerfaust", 62), ("_44mmPzF44", 65), ("_30mmPanzerfaust30", 70), ("_50mmPanzerfaust60", 71), ("_60mmPanzerfaust100", 72), ("_60mmPanzerfaust150", 73), ("_88mmPanzerschreckRPzB", 75), ("_83mmRL83Blindicide", 80), ("_100mmRL100Blindicide", 81), ("_90mmM79Osa", 85), ("_64mmM80Zolja", 86), ("_67mmArmburstCrossbow", 90), ("_40mmType69RPG", 93), ("_89mmPIAT", 95), ("_40mmRPG2", 100), ("_64mmRPG18Mukha", 101), ("_72_5mmRPG22Netto", 102), ("_72_5mmRPG26Aglen", 103), ("_105mmRPG29Vampir", 104), ("_105mmRPG30Kryuk", 105), ("_105mmRPG32Nashshab", 106), ("_40mmRPG7", 110), ("_40mmPSRL1", 111), ("_40mmGS777PSRL2", 112), ("_68mmRPG76Komar", 120), ("_120mmSEPDard120", 125), ("_58mmWASP58", 128), ("_73mmLRAC7350", 130), ("_89mmLRAC89F1STRIM", 131), ("_90mmMATADOR", 135), ("_90mmMATADORMP", 136), ("_90mmMATADORWB", 137), ("_90mmMATADORAS", 138), ("_78mmMARAAntiTankRocketLauncher", 140), ("_120mmType98PF98", 145)], actual: || vec![LifeFormHumanSpecificAntiTankRockets::Other as u64, LifeFormHumanSpecificAntiTankRockets::_82mmB300 as u64, LifeFormHumanSpecificAntiTankRockets::_82mmShipon as u64, LifeFormHumanSpecificAntiTankRockets::_83mmMK153Mod0SMAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72A1LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72A2LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72A3LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72A4LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72A5LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72A6LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72A7LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72E8LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72E9LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72E10LAW as u64, LifeFormHumanSpecificAntiTankRockets::_66mmM72ASLAW as u64, LifeFormHumanSpecificAntiTankRockets::_94mmLAW80 as u64, LifeFormHumanSpecificAntiTankRockets::_60mmM1Bazooka as u64, LifeFormHumanSpecificAntiTankRockets::_60mmM1A1Bazooka as u64, LifeFormHumanSpecificAntiTankRockets::_60mmM9Bazooka as u64, LifeFormHumanSpecificAntiTankRockets::_60mmM9A1Bazooka as u64, LifeFormHumanSpecificAntiTankRockets::_89mmM20SuperBazooka as u64, LifeFormHumanSpecificAntiTankRockets::_89mmM20A1SuperBazooka as u64, LifeFormHumanSpecificAntiTankRockets::_89mmM20B1SuperBazooka as u64, LifeFormHumanSpecificAntiTankRockets::_89mmM20A1B1SuperBazooka as u64, LifeFormHumanSpecificAntiTankRockets::_89mmM25ThreeShotBazooka as u64, LifeFormHumanSpecificAntiTankRockets::_89mmInstalazaM65 as u64, LifeFormHumanSpecificAntiTankRockets::_90mmInstalazaC90 as u64, LifeFormHumanSpecificAntiTankRockets::_90mmC90CR as u64, LifeFormHumanSpecificAntiTankRockets::_90mmC90CRAM as u64, LifeFormHumanSpecificAntiTankRockets::_90mmC90CRBK as u64, LifeFormHumanSpecificAntiTankRockets::_90mmC90CRIN as u64, LifeFormHumanSpecificAntiTankRockets::_60mmPzF3 as u64, LifeFormHumanSpecificAntiTankRockets::_60mmPzF3IT as u64, LifeFormHumanSpecificAntiTankRockets::_60mmPzF3Bunkerfaust as u64, LifeFormHumanSpecificAntiTankRockets::_44mmPzF44 as u64, LifeFormHumanSpecificAntiTankRockets::_30mmPanzerfaust30 as u64, LifeFormHumanSpecificAntiTankRockets::_50mmPanzerfaust60 as u64, LifeFormHumanSpecificAntiTankRockets::_60mmPanzerfaust100 as u64, LifeFormHumanSpecificAntiTankRockets::_60mmPanzerfaust150 as u64, LifeFormHumanSpecificAntiTankRockets::_88mmPanzerschreckRPzB as u64, LifeFormHumanSpecificAntiTankRockets::_83mmRL83Blindicide as u64, LifeFormHumanSpecificAntiTankRockets::_100mmRL100Blindicide as u64, LifeFormHumanSpecificAntiTankRockets::_90mmM79Osa as u64, LifeFormHumanSpecificAntiTankRockets::_64mmM80Zolja as u64, LifeFormHumanSpecificAntiTankRockets::_67mmArmburstCrossbow as u64, LifeFormHumanSpecificAntiTankRockets::_40mmType69RPG as u64, LifeFormHumanSpecificAntiTankRockets::_89mmPIAT as u64, LifeFormHumanSpecificAntiTankRockets::_40mmRPG2 as u64, LifeFormHumanSpecificAntiTankRockets::_64mmRPG18Mukha as u64, LifeFormHumanSpecificAntiTankRockets::_72_5mmRPG22Netto as u64, LifeFormHumanSpecificAntiTankRockets::_72_5mmRPG26Aglen as u64, LifeFormHumanSpecificAntiTankRockets::_105mmRPG29Vampir as u64, LifeFormHumanSpecificAntiTankRockets::_105mmRPG30Kryuk as u64, LifeFormHumanSpecificAntiTankRockets::_105mmRPG32Nashshab as u64, LifeFormHumanSpecificAntiTankRockets::_40mmRPG7 as u64, LifeFormHumanSpecificAntiTankRockets::_40mmPSRL1 as u64, LifeFormHumanSpecificAntiTankRockets::_40mmGS777PSRL2 as u64, LifeFormHumanSpecificAntiTankRockets::_68mmRPG76Komar as u64, LifeFormHumanSpecificAntiTankRockets::_120mmSEPDard120 as u64, LifeFormHumanSpecificAntiTankRockets::_58mmWASP58 as u64, LifeFormHumanSpecificAntiTankRockets::_73mmLRAC7350 as u64, LifeFormHumanSpecificAntiTankRockets::_89mmLRAC89F1STRIM as u64, LifeFormHumanSpecificAntiTankRockets::_90mmMATADOR as u64, LifeFormHumanSpecificAntiTankRockets::_90mmMATADORMP as u64, LifeFormHumanSpecificAntiTankRockets::_90mmMATADORWB as u64, LifeFormHumanSpecificAntiTankRockets::_90mmMATADORAS as u64, LifeFormHumanSpecificAntiTankRockets::_78mmMARAAntiTankRocketLauncher as u64, LifeFormHumanSpecificAntiTankRockets::_120mmType98PF98 as u64], decode: |mut b| { let v = LifeFormHumanSpecificAntiTankRockets::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificAntiTankRockets as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificAntiTankRockets::Other, LifeFormHumanSpecificAntiTankRockets::_82mmB300, LifeFormHumanSpecificAntiTankRockets::_82mmShipon, LifeFormHumanSpecificAntiTankRockets::_83mmMK153Mod0SMAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72A1LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72A2LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72A3LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72A4LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72A5LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72A6LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72A7LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72E8LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72E9LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72E10LAW, LifeFormHumanSpecificAntiTankRockets::_66mmM72ASLAW, LifeFormHumanSpecificAntiTankRockets::_94mmLAW80, LifeFormHumanSpecificAntiTankRockets::_60mmM1Bazooka, LifeFormHumanSpecificAntiTankRockets::_60mmM1A1Bazooka, LifeFormHumanSpecificAntiTankRockets::_60mmM9Bazooka, LifeFormHumanSpecificAntiTankRockets::_60mmM9A1Bazooka, LifeFormHumanSpecificAntiTankRockets::_89mmM20SuperBazooka, LifeFormHumanSpecificAntiTankRockets::_89mmM20A1SuperBazooka, LifeFormHumanSpecificAntiTankRockets::_89mmM20B1SuperBazooka, LifeFormHumanSpecificAntiTankRockets::_89mmM20A1B1SuperBazooka, LifeFormHumanSpecificAntiTankRockets::_89mmM25ThreeShotBazooka, LifeFormHumanSpecificAntiTankRockets::_89mmInstalazaM65, LifeFormHumanSpecificAntiTankRockets::_90mmInstalazaC90, LifeFormHumanSpecificAntiTankRockets::_90mmC90CR, LifeFormHumanSpecificAntiTankRockets::_90mmC90CRAM, LifeFormHumanSpecificAntiTankRockets::_90mmC90CRBK, LifeFormHumanSpecificAntiTankRockets::_90mmC90CRIN, LifeFormHumanSpecificAntiTankRockets::_60mmPzF3, LifeFormHumanSpecificAntiTankRockets::_60mmPzF3IT, LifeFormHumanSpecificAntiTankRockets::_60mmPzF3Bunkerfaust, LifeFormHumanSpecificAntiTankRockets::_44mmPzF44, LifeFormHumanSpecificAntiTankRockets::_30mmPanzerfaust30, LifeFormHumanSpecificAntiTankRockets::_50mmPanzerfaust60, LifeFormHumanSpecificAntiTankRockets::_60mmPanzerfaust100, LifeFormHumanSpecificAntiTankRockets::_60mmPanzerfaust150, LifeFormHumanSpecificAntiTankRockets::_88mmPanzerschreckRPzB, LifeFormHumanSpecificAntiTankRockets::_83mmRL83Blindicide, LifeFormHumanSpecificAntiTankRockets::_100mmRL100Blindicide, LifeFormHumanSpecificAntiTankRockets::_90mmM79Osa, LifeFormHumanSpecificAntiTankRockets::_64mmM80Zolja, LifeFormHumanSpecificAntiTankRockets::_67mmArmburstCrossbow, LifeFormHumanSpecificAntiTankRockets::_40mmType69RPG, LifeFormHumanSpecificAntiTankRockets::_89mmPIAT, LifeFormHumanSpecificAntiTankRockets::_40mmRPG2, LifeFormHumanSpecificAntiTankRockets::_64mmRPG18Mukha, LifeFormHumanSpecificAntiTankRockets::_72_5mmRPG22Netto, LifeFormHumanSpecificAntiTankRockets::_72_5mmRPG26Aglen, LifeFormHumanSpecificAntiTankRockets::_105mmRPG29Vampir, LifeFormHumanSpecificAntiTankRockets::_105mmRPG30Kryuk, LifeFormHumanSpecificAntiTankRockets::_105mmRPG32Nashshab, LifeFormHumanSpecificAntiTankRockets::_40mmRPG7, LifeFormHumanSpecificAntiTankRockets::_40mmPSRL1, LifeFormHumanSpecificAntiTankRockets::_40mmGS777PSRL2, LifeFormHumanSpecificAntiTankRockets::_68mmRPG76Komar, LifeFormHumanSpecificAntiTankRockets::_120mmSEPDard120, LifeFormHumanSpecificAntiTankRockets::_58mmWASP58, LifeFormHumanSpecificAntiTankRockets::_73mmLRAC7350, LifeFormHumanSpecificAntiTankRockets::_89mmLRAC89F1STRIM, LifeFormHumanSpecificAntiTankRockets::_90mmMATADOR, LifeFormHumanSpecificAntiTankRockets::_90mmMATADORMP, LifeFormHumanSpecificAntiTankRockets::_90mmMATADORWB, LifeFormHumanSpecificAntiTankRockets::_90mmMATADORAS, LifeFormHumanSpecificAntiTankRockets::_78mmMARAAntiTankRocketLauncher, LifeFormHumanSpecificAntiTankRockets::_120mmType98PF98], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificAntiTankMissiles", bits: 8, default: 0, codes: &[("Other", 0), ("_120mmType64MATKAM3", 30), ("_153mmType79JyuMATKAM9", 31), ("_120mmType87ChuMAT", 32), ("_140mmType01LMAT", 33), ("_140mmM47Dragon", 58), ("_140mmSaeghe12", 59), ("_127mmFGM148Javelin", 60), ("_139mmFGM172SRAW", 63), ("_139mmFGM172BSRAWMPV", 64), ("_152mmBGM71TOW", 68), ("_152mmOrevTOWII", 69), ("_120mmVickersVigilantClevite", 75), ("_110mmBantam", 80), ("_150mmRBS56BILL1", 81), ("_150mmRBS562BILL2", 82), ("_130mmSpikeSR", 85), ("_130mmSpikeMR", 86), ("_130mmSpikeLR", 87), ("_60mmMosquito", 95), ("_160mmSS_10", 98), ("_103mmMILAN", 100), ("_115mmMILAN2", 101), ("_115mmMILAN2T", 102), ("_115mmMILAN3", 103), ("_115mmMILANER", 104), ("_136mmERYX", 105), ("_152mmEntac", 107), ("_125mmRAAD", 110), ("_125mmIRAADT", 111), ("_152mmToophan", 112), ("_152mmToophan2", 113), ("_152mmToophan5", 114), ("_136mmBumbar", 120), ("_130mmShershenPK2", 125), ("_152mmShershenQP2B", 126), ("_130mmMectronMSS1_2", 130), ("_120mmHJ8", 140), ("_120mmHJ8A", 141), ("_120mmHJ8B", 142), ("_120mmHJ8C", 143), ("_120mmHJ8D", 144), ("_120mmHJ8E", 145), ("_120mmHJ8F", 146), ("_120mmHJ8FAE", 147), ("_120mmHJ8L", 148), ("_120mmHJ8H", 149), ("_120mmHJ8S", 150), ("_120mmBaktarShikan", 151), ("_120mmHJ11", 152), ("_152mmHJ9A", 153), ("_135mmHJ12RedArrow", 154), ("_125mmHJ73MCLOS", 155), ("_125mmHJ73BSACLOS", 156), ("_125mmHJ73CSACLOSERA", 157), ("_125mmAT3SaggerA9M14Malyutka", 170), ("_125mmAT3BSaggerB9M14MMalyutkaM", 171), ("_125mmAT3CSaggerC9M14PMalyutkaP", 172), ("_125mmAT3DSaggerD9M142Malyutka2", 173), ("_125mmSusongPo", 174), ("_125mmAT3CPOLK", 175), ("_125mmKunWu1", 176), ("_125mmMaliutkaM2T", 177), ("_120mmAT4ASpigotA9M111Fagot", 178), ("_120mmAT4BSpigotB9M1112Fagot", 179), ("_120mmAT4CSpigotC9M111MFaktoriya", 180), ("_135mmAT5ASpandrel9M113Kronkurs", 181), ("_135mmAT5BSpandrel9M113MKronkursM", 182), ("_135mmTosan", 183), ("_94mmAT7Saxhorn9K115Metis", 184), ("_130mmAT13Saxhorn29K1152MetisM", 185), ("_152mmAT14Spriggan9M133Kornet", 186), ("_152mmDehlavie", 187), ("_102mmMathogo", 200)], actual: || vec![LifeFormHumanSpecificAntiTankMissiles::Other as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmType64MATKAM3 as u64, LifeFormHumanSpecificAntiTankMissiles::_153mmType79JyuMATKAM9 as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmType87ChuMAT as u64, LifeFormHumanSpecificAntiTankMissiles::_140mmType01LMAT as u64, LifeFormHumanSpecificAntiTankMissiles::_140mmM47Dragon as u64, LifeFormHumanSpecificAntiTankMissiles::_140mmSaeghe12 as u64, LifeFormHumanSpecificAntiTankMissiles::_127mmFGM148Javelin as u64, LifeFormHumanSpecificAntiTankMissiles::_139mmFGM172SRAW as u64, LifeFormHumanSpecificAntiTankMissiles::_139mmFGM172BSRAWMPV as u64, LifeFormHumanSpecificAntiTankMissiles::_152mmBGM71TOW as u64, LifeFormHumanSpecificAntiTankMissiles::_152mmOrevTOWII as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmVickersVigilantClevite as u64, LifeFormHumanSpecificAntiTankMissiles::_110mmBantam as u64, LifeFormHumanSpecificAntiTankMissiles::_150mmRBS56BILL1 as u64, LifeFormHumanSpecificAntiTankMissiles::_150mmRBS562BILL2 as u64, LifeFormHumanSpecificAntiTankMissiles::_130mmSpikeSR as u64, LifeFormHumanSpecificAntiTankMissiles::_130mmSpikeMR as u64, LifeFormHumanSpecificAntiTankMissiles::_130mmSpikeLR as u64, LifeFormHumanSpecificAntiTankMissiles::_60mmMosquito as u64, LifeFormHumanSpecificAntiTankMissiles::_160mmSS_10 as u64, LifeFormHumanSpecificAntiTankMissiles::_103mmMILAN as u64, LifeFormHumanSpecificAntiTankMissiles::_115mmMILAN2 as u64, LifeFormHumanSpecificAntiTankMissiles::_115mmMILAN2T as u64, LifeFormHumanSpecificAntiTankMissiles::_115mmMILAN3 as u64, LifeFormHumanSpecificAntiTankMissiles::_115mmMILANER as u64, LifeFormHumanSpecificAntiTankMissiles::_136mmERYX as u64, LifeFormHumanSpecificAntiTankMissiles::_152mmEntac as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmRAAD as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmIRAADT as u64, LifeFormHumanSpecificAntiTankMissiles::_152mmToophan as u64, LifeFormHumanSpecificAntiTankMissiles::_152mmToophan2 as u64, LifeFormHumanSpecificAntiTankMissiles::_152mmToophan5 as u64, LifeFormHumanSpecificAntiTankMissiles::_136mmBumbar as u64, LifeFormHumanSpecificAntiTankMissiles::_130mmShershenPK2 as u64, LifeFormHumanSpecificAntiTankMissiles::_152mmShershenQP2B as u64, LifeFormHumanSpecificAntiTankMissiles::_130mmMectronMSS1_2 as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8 as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8A as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8B as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8C as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8D as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8E as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8F as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8FAE as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8L as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8H as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8S as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmBaktarShikan as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ11 as u64, LifeFormHumanSpecificAntiTankMissiles::_152mmHJ9A as u64, LifeFormHumanSpecificAntiTankMissiles::_135mmHJ12RedArrow as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmHJ73MCLOS as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmHJ73BSACLOS as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmHJ73CSACLOSERA as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmAT3SaggerA9M14Malyutka as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmAT3BSaggerB9M14MMalyutkaM as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmAT3CSaggerC9M14PMalyutkaP as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmAT3DSaggerD9M142Malyutka2 as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmSusongPo as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmAT3CPOLK as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmKunWu1 as u64, LifeFormHumanSpecificAntiTankMissiles::_125mmMaliutkaM2T as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmAT4ASpigotA9M111Fagot as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmAT4BSpigotB9M1112Fagot as u64, LifeFormHumanSpecificAntiTankMissiles::_120mmAT4CSpigotC9M111MFaktoriya as u64, LifeFormHumanSpecificAntiTankMissiles::_135mmAT5ASpandrel9M113Kronkurs as u64, LifeFormHumanSpecificAntiTankMissiles::_135mmAT5BSpandrel9M113MKronkursM as u64, LifeFormHumanSpecificAntiTankMissiles::_135mmTosan as u64, LifeFormHumanSpecificAntiTankMissiles::_94mmAT7Saxhorn9K115Metis as u64, LifeFormHumanSpecificAntiTankMissiles::_130mmAT13Saxhorn29K1152MetisM as u64, LifeFormHumanSpecificAntiTankMissiles::_152mmAT14Spriggan9M133Kornet as u64, LifeFormHumanSpecificAntiTankMissiles::_152mmDehlavie as u64, LifeFormHumanSpecificAntiTankMissiles::_102mmMathogo as u64], decode: |mut b| { let v = LifeFormHumanSpecificAntiTankMissiles::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificAntiTankMissiles as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificAntiTankMissiles::Other, LifeFormHumanSpecificAntiTankMissiles::_120mmType64MATKAM3, LifeFormHumanSpecificAntiTankMissiles::_153mmType79JyuMATKAM9, LifeFormHumanSpecificAntiTankMissiles::_120mmType87ChuMAT, LifeFormHumanSpecificAntiTankMissiles::_140mmType01LMAT, LifeFormHumanSpecificAntiTankMissiles::_140mmM47Dragon, LifeFormHumanSpecificAntiTankMissiles::_140mmSaeghe12, LifeFormHumanSpecificAntiTankMissiles::_127mmFGM148Javelin, LifeFormHumanSpecificAntiTankMissiles::_139mmFGM172SRAW, LifeFormHumanSpecificAntiTankMissiles::_139mmFGM172BSRAWMPV, LifeFormHumanSpecificAntiTankMissiles::_152mmBGM71TOW, LifeFormHumanSpecificAntiTankMissiles::_152mmOrevTOWII, LifeFormHumanSpecificAntiTankMissiles::_120mmVickersVigilantClevite, LifeFormHumanSpecificAntiTankMissiles::_110mmBantam, LifeFormHumanSpecificAntiTankMissiles::_150mmRBS56BILL1, LifeFormHumanSpecificAntiTankMissiles::_150mmRBS562BILL2, LifeFormHumanSpecificAntiTankMissiles::_130mmSpikeSR, LifeFormHumanSpecificAntiTankMissiles::_130mmSpikeMR, LifeFormHumanSpecificAntiTankMissiles::_130mmSpikeLR, LifeFormHumanSpecificAntiTankMissiles::_60mmMosquito, LifeFormHumanSpecificAntiTankMissiles::_160mmSS_10, LifeFormHumanSpecificAntiTankMissiles::_103mmMILAN, LifeFormHumanSpecificAntiTankMissiles::_115mmMILAN2, LifeFormHumanSpecificAntiTankMissiles::_115mmMILAN2T, LifeFormHumanSpecificAntiTankMissiles::_115mmMILAN3, LifeFormHumanSpecificAntiTankMissiles::_115mmMILANER, LifeFormHumanSpecificAntiTankMissiles::_136mmERYX, LifeFormHumanSpecificAntiTankMissiles::_152mmEntac, LifeFormHumanSpecificAntiTankMissiles::_125mmRAAD, LifeFormHumanSpecificAntiTankMissiles::_125mmIRAADT, LifeFormHumanSpecificAntiTankMissiles::_152mmToophan, LifeFormHumanSpecificAntiTankMissiles::_152mmToophan2, LifeFormHumanSpecificAntiTankMissiles::_152mmToophan5, LifeFormHumanSpecificAntiTankMissiles::_136mmBumbar, LifeFormHumanSpecificAntiTankMissiles::_130mmShershenPK2, LifeFormHumanSpecificAntiTankMissiles::_152mmShershenQP2B, LifeFormHumanSpecificAntiTankMissiles::_130mmMectronMSS1_2, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8A, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8B, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8C, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8D, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8E, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8F, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8FAE, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8L, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8H, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ8S, LifeFormHumanSpecificAntiTankMissiles::_120mmBaktarShikan, LifeFormHumanSpecificAntiTankMissiles::_120mmHJ11, LifeFormHumanSpecificAntiTankMissiles::_152mmHJ9A, LifeFormHumanSpecificAntiTankMissiles::_135mmHJ12RedArrow, LifeFormHumanSpecificAntiTankMissiles::_125mmHJ73MCLOS, LifeFormHumanSpecificAntiTankMissiles::_125mmHJ73BSACLOS, LifeFormHumanSpecificAntiTankMissiles::_125mmHJ73CSACLOSERA, LifeFormHumanSpecificAntiTankMissiles::_125mmAT3SaggerA9M14Malyutka, LifeFormHumanSpecificAntiTankMissiles::_125mmAT3BSaggerB9M14MMalyutkaM, LifeFormHumanSpecificAntiTankMissiles::_125mmAT3CSaggerC9M14PMalyutkaP, LifeFormHumanSpecificAntiTankMissiles::_125mmAT3DSaggerD9M142Malyutka2, LifeFormHumanSpecificAntiTankMissiles::_125mmSusongPo, LifeFormHumanSpecificAntiTankMissiles::_125mmAT3CPOLK, LifeFormHumanSpecificAntiTankMissiles::_125mmKunWu1, LifeFormHumanSpecificAntiTankMissiles::_125mmMaliutkaM2T, LifeFormHumanSpecificAntiTankMissiles::_120mmAT4ASpigotA9M111Fagot, LifeFormHumanSpecificAntiTankMissiles::_120mmAT4BSpigotB9M1112Fagot, LifeFormHumanSpecificAntiTankMissiles::_120mmAT4CSpigotC9M111MFaktoriya, LifeFormHumanSpecificAntiTankMissiles::_135mmAT5ASpandrel9M113Kronkurs, LifeFormHumanSpecificAntiTankMissiles::_135mmAT5BSpandrel9M113MKronkursM, LifeFormHumanSpecificAntiTankMissiles::_135mmTosan, LifeFormHumanSpecificAntiTankMissiles::_94mmAT7Saxhorn9K115Metis, LifeFormHumanSpecificAntiTankMissiles::_130mmAT13Saxhorn29K1152MetisM, LifeFormHumanSpecificAntiTankMissiles::_152mmAT14Spriggan9M133Kornet, LifeFormHumanSpecificAntiTankMissiles::_152mmDehlavie, LifeFormHumanSpecificAntiTankMissiles::_102mmMathogo], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificManPortableAirDefenseSystem", bits: 8, default: 0, codes: &[("Other", 0), ("_70mmFIM43Redeye", 1), ("_70mmFIM92Stinger", 2), ("_76mmBlowpipe", 10), ("_76mmStarburst", 11), ("_130mmStarstreakHVM", 12), ("_90mmMistral", 15), ("_72mm9K32MStrela2", 20), ("_72mm9K36Strela3", 21), ("_72mm9K38Igla", 22), ("_72mm9K310IglaM", 23), ("_72mm9K333Verba", 24), ("_72mm9K338IglaS", 25), ("_72mm9K32MStrela2M", 26), ("_72mmHN5HongYing5", 30), ("_72mmQW1Vanguard", 31), ("_72mmQW2Vanguard2", 32), ("_90mmQW3", 33), ("_72mmFN6", 34), ("_71mmMisagh1", 45), ("_71mmMisagh2", 46), ("_80mmType91KinSAM", 50), ("_80mmKPSAMShunGung", 55), ("_106mmRBS70", 60)], actual: || vec![LifeFormHumanSpecificManPortableAirDefenseSystem::Other as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_70mmFIM43Redeye as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_70mmFIM92Stinger as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_76mmBlowpipe as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_76mmStarburst as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_130mmStarstreakHVM as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_90mmMistral as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K32MStrela2 as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K36Strela3 as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K38Igla as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K310IglaM as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K333Verba as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K338IglaS as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K32MStrela2M as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mmHN5HongYing5 as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mmQW1Vanguard as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mmQW2Vanguard2 as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_90mmQW3 as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mmFN6 as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_71mmMisagh1 as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_71mmMisagh2 as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_80mmType91KinSAM as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_80mmKPSAMShunGung as u64, LifeFormHumanSpecificManPortableAirDefenseSystem::_106mmRBS70 as u64], decode: |mut b| { let v = LifeFormHumanSpecificManPortableAirDefenseSystem::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificManPortableAirDefenseSystem as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificManPortableAirDefenseSystem::Other, LifeFormHumanSpecificManPortableAirDefenseSystem::_70mmFIM43Redeye, LifeFormHumanSpecificManPortableAirDefenseSystem::_70mmFIM92Stinger, LifeFormHumanSpecificManPortableAirDefenseSystem::_76mmBlowpipe, LifeFormHumanSpecificManPortableAirDefenseSystem::_76mmStarburst, LifeFormHumanSpecificManPortableAirDefenseSystem::_130mmStarstreakHVM, LifeFormHumanSpecificManPortableAirDefenseSystem::_90mmMistral, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K32MStrela2, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K36Strela3, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K38Igla, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K310IglaM, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K333Verba, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K338IglaS, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mm9K32MStrela2M, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mmHN5HongYing5, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mmQW1Vanguard, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mmQW2Vanguard2, LifeFormHumanSpecificManPortableAirDefenseSystem::_90mmQW3, LifeFormHumanSpecificManPortableAirDefenseSystem::_72mmFN6, LifeFormHumanSpecificManPortableAirDefenseSystem::_71mmMisagh1, LifeFormHumanSpecificManPortableAirDefenseSystem::_71mmMisagh2, LifeFormHumanSpecificManPortableAirDefenseSystem::_80mmType91KinSAM, LifeFormHumanSpecificManPortableAirDefenseSystem::_80mmKPSAMShunGung, LifeFormHumanSpecificManPortableAirDefenseSystem::_106mmRBS70], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificRecoillessRifles", bits: 8, default: 0, codes: &[("Other", 0), ("_84mmM136AT4CS", 15), ("_57mmM18RR", 20), ("_75mmM20RR", 21), ("_120mmM28DavyCrockett", 22), ("_155mmM29DavyCrockett", 23), ("_106mmM40RecoillessRifle", 24), ("_82mmM60RR", 25), ("_90mmM67RR", 26), ("_84mmM1CarlGustav", 30), ("_84mmM2CarlGustav", 31), ("_84mmM3CarlGustav", 32), ("_84mmM4CarlGustav", 33), ("_74mmPansarskottm68Miniman", 35), ("_84mmALAC", 40), ("_82mmB10RR", 45), ("_107mmB11RR", 46), ("_80mmBredaFolgore", 50), ("_120mmBATRR", 55), ("_73mmSPG9Kopye", 60), ("_88mmRCL3_45in", 65), ("_90mmPvpj110", 70), ("_50mmJagdfaust", 75), ("_30mmRheinmetallRMK30", 80), ("_88mm55S55Raikka", 90), ("_95mm95S5861", 91), ("_73mmLG40", 95), ("_105mmLG40", 96), ("_105mmLG42", 97)], actual: || vec![LifeFormHumanSpecificRecoillessRifles::Other as u64, LifeFormHumanSpecificRecoillessRifles::_84mmM136AT4CS as u64, LifeFormHumanSpecificRecoillessRifles::_57mmM18RR as u64, LifeFormHumanSpecificRecoillessRifles::_75mmM20RR as u64, LifeFormHumanSpecificRecoillessRifles::_120mmM28DavyCrockett as u64, LifeFormHumanSpecificRecoillessRifles::_155mmM29DavyCrockett as u64, LifeFormHumanSpecificRecoillessRifles::_106mmM40RecoillessRifle as u64, LifeFormHumanSpecificRecoillessRifles::_82mmM60RR as u64, LifeFormHumanSpecificRecoillessRifles::_90mmM67RR as u64, LifeFormHumanSpecificRecoillessRifles::_84mmM1CarlGustav as u64, LifeFormHumanSpecificRecoillessRifles::_84mmM2CarlGustav as u64, LifeFormHumanSpecificRecoillessRifles::_84mmM3CarlGustav as u64, LifeFormHumanSpecificRecoillessRifles::_84mmM4CarlGustav as u64, LifeFormHumanSpecificRecoillessRifles::_74mmPansarskottm68Miniman as u64, LifeFormHumanSpecificRecoillessRifles::_84mmALAC as u64, LifeFormHumanSpecificRecoillessRifles::_82mmB10RR as u64, LifeFormHumanSpecificRecoillessRifles::_107mmB11RR as u64, LifeFormHumanSpecificRecoillessRifles::_80mmBredaFolgore as u64, LifeFormHumanSpecificRecoillessRifles::_120mmBATRR as u64, LifeFormHumanSpecificRecoillessRifles::_73mmSPG9Kopye as u64, LifeFormHumanSpecificRecoillessRifles::_88mmRCL3_45in as u64, LifeFormHumanSpecificRecoillessRifles::_90mmPvpj110 as u64, LifeFormHumanSpecificRecoillessRifles::_50mmJagdfaust as u64, LifeFormHumanSpecificRecoillessRifles::_30mmRheinmetallRMK30 as u64, LifeFormHumanSpecificRecoillessRifles::_88mm55S55Raikka as u64, LifeFormHumanSpecificRecoillessRifles::_95mm95S5861 as u64, LifeFormHumanSpecificRecoillessRifles::_73mmLG40 as u64, LifeFormHumanSpecificRecoillessRifles::_105mmLG40 as u64, LifeFormHumanSpecificRecoillessRifles::_105mmLG42 as u64], decode: |mut b| { let v = LifeFormHumanSpecificRecoillessRifles::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificRecoillessRifles as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificRecoillessRifles::Other, LifeFormHumanSpecificRecoillessRifles::_84mmM136AT4CS, LifeFormHumanSpecificRecoillessRifles::_57mmM18RR, LifeFormHumanSpecificRecoillessRifles::_75mmM20RR, LifeFormHumanSpecificRecoillessRifles::_120mmM28DavyCrockett, LifeFormHumanSpecificRecoillessRifles::_155mmM29DavyCrockett, LifeFormHumanSpecificRecoillessRifles::_106mmM40RecoillessRifle, LifeFormHumanSpecificRecoillessRifles::_82mmM60RR, LifeFormHumanSpecificRecoillessRifles::_90mmM67RR, LifeFormHumanSpecificRecoillessRifles::_84mmM1CarlGustav, LifeFormHumanSpecificRecoillessRifles::_84mmM2CarlGustav, LifeFormHumanSpecificRecoillessRifles::_84mmM3CarlGustav, LifeFormHumanSpecificRecoillessRifles::_84mmM4CarlGustav, LifeFormHumanSpecificRecoillessRifles::_74mmPansarskottm68Miniman, LifeFormHumanSpecificRecoillessRifles::_84mmALAC, LifeFormHumanSpecificRecoillessRifles::_82mmB10RR, LifeFormHumanSpecificRecoillessRifles::_107mmB11RR, LifeFormHumanSpecificRecoillessRifles::_80mmBredaFolgore, LifeFormHumanSpecificRecoillessRifles::_120mmBATRR, LifeFormHumanSpecificRecoillessRifles::_73mmSPG9Kopye, LifeFormHumanSpecificRecoillessRifles::_88mmRCL3_45in, LifeFormHumanSpecificRecoillessRifles::_90mmPvpj110, LifeFormHumanSpecificRecoillessRifles::_50mmJagdfaust, LifeFormHumanSpecificRecoillessRifles::_30mmRheinmetallRMK30, LifeFormHumanSpecificRecoillessRifles::_88mm55S55Raikka, LifeFormHumanSpecificRecoillessRifles::_95mm95S5861, LifeFormHumanSpecificRecoillessRifles::_73mmLG40, LifeFormHumanSpecificRecoillessRifles::_105mmLG40, LifeFormHumanSpecificRecoillessRifles::_105mmLG42], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificFlameRockets", bits: 8, default: 0, codes: &[("Other", 0), ("_66mmM202Flash", 20), ("_62mmFHJ84", 30), ("_90mmC90CRFIM", 40), ("_93mmRPOAShmel", 50), ("_93mmRPOZShmel", 51), ("_93mmRPODShmel", 52)], actual: || vec![LifeFormHumanSpecificFlameRockets::Other as u64, LifeFormHumanSpecificFlameRockets::_66mmM202Flash as u64, LifeFormHumanSpecificFlameRockets::_62mmFHJ84 as u64, LifeFormHumanSpecificFlameRockets::_90mmC90CRFIM as u64, LifeFormHumanSpecificFlameRockets::_93mmRPOAShmel as u64, LifeFormHumanSpecificFlameRockets::_93mmRPOZShmel as u64, LifeFormHumanSpecificFlameRockets::_93mmRPODShmel as u64], decode: |mut b| { let v = LifeFormHumanSpecificFlameRockets::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificFlameRockets as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificFlameRockets::Other, LifeFormHumanSpecificFlameRockets::_66mmM202Flash, LifeFormHumanSpecificFlameRockets::_62mmFHJ84, LifeFormHumanSpecificFlameRockets::_90mmC90CRFIM, LifeFormHumanSpecificFlameRockets::_93mmRPOAShmel, LifeFormHumanSpecificFlameRockets::_93mmRPOZShmel, LifeFormHumanSpecificFlameRockets::_93mmRPODShmel], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificFlameThrowers", bits: 8, default: 0, codes: &[("Other", 0), ("Handflammpatrone", 10), ("FmW41", 11), ("M1A1", 20), ("M2A17", 21), ("M9A17", 22), ("LPO50", 30), ("KPattern", 35), ("PortableNo2AckPack", 36), ("Marsden", 37), ("Harvey", 38), ("ROKS2", 45), ("ROKS3", 46), ("Type93", 50), ("Type100", 51)], actual: || vec![LifeFormHumanSpecificFlameThrowers::Other as u64, LifeFormHumanSpecificFlameThrowers::Handflammpatrone as u64, LifeFormHumanSpecificFlameThrowers::FmW41 as u64, LifeFormHumanSpecificFlameThrowers::M1A1 as u64, LifeFormHumanSpecificFlameThrowers::M2A17 as u64, LifeFormHumanSpecificFlameThrowers::M9A17 as u64, LifeFormHumanSpecificFlameThrowers::LPO50 as u64, LifeFormHumanSpecificFlameThrowers::KPattern as u64, LifeFormHumanSpecificFlameThrowers::PortableNo2AckPack as u64, LifeFormHumanSpecificFlameThrowers::Marsden as u64, LifeFormHumanSpecificFlameThrowers::Harvey as u64, LifeFormHumanSpecificFlameThrowers::ROKS2 as u64, LifeFormHumanSpecificFlameThrowers::ROKS3 as u64, LifeFormHumanSpecificFlameThrowers::Type93 as u64, LifeFormHumanSpecificFlameThrowers::Type100 as u64], decode: |mut b| { let v = LifeFormHumanSpecificFlameThrowers::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificFlameThrowers as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificFlameThrowers::Other, LifeFormHumanSpecificFlameThrowers::Handflammpatrone, LifeFormHumanSpecificFlameThrowers::FmW41, LifeFormHumanSpecificFlameThrowers::M1A1, LifeFormHumanSpecificFlameThrowers::M2A17, LifeFormHumanSpecificFlameThrowers::M9A17, LifeFormHumanSpecificFlameThrowers::LPO50, LifeFormHumanSpecificFlameThrowers::KPattern, LifeFormHumanSpecificFlameThrowers::PortableNo2AckPack, LifeFormHumanSpecificFlameThrowers::Marsden, LifeFormHumanSpecificFlameThrowers::Harvey, LifeFormHumanSpecificFlameThrowers::ROKS2, LifeFormHumanSpecificFlameThrowers::ROKS3, LifeFormHumanSpecificFlameThrowers::Type93, LifeFormHumanSpecificFlameThrowers::Type100], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificDroneGuns", bits: 8, default: 0, codes: &[("Other", 0), ("DroneGunTactical", 15), ("DroneGunMKII", 16)], actual: || vec![LifeFormHumanSpecificDroneGuns::Other as u64, LifeFormHumanSpecificDroneGuns::DroneGunTactical as u64, LifeFormHumanSpecificDroneGuns::DroneGunMKII as u64], decode: |mut b| { let v = LifeFormHumanSpecificDroneGuns::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificDroneGuns as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificDroneGuns::Other, LifeFormHumanSpecificDroneGuns::DroneGunTactical, LifeFormHumanSpecificDroneGuns::DroneGunMKII], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificLogisticsEQClass", bits: 8, default: 1, codes: &[("SlingLoadPendant", 1)], actual: || vec![LifeFormHumanSpecificLogisticsEQClass::SlingLoadPendant as u64], decode: |mut b| { let v = LifeFormHumanSpecificLogisticsEQClass::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificLogisticsEQClass as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificLogisticsEQClass::SlingLoadPendant], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificPersonalElectronicsClass", bits: 8, default: 1, codes: &[("CellPhone", 1)], actual: || vec![LifeFormHumanSpecificPersonalElectronicsClass::CellPhone as u64], decode: |mut b| { let v = LifeFormHumanSpecificPersonalElectronicsClass::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificPersonalElectronicsClass as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificPersonalElectronicsClass::CellPhone], |v| v as u64), scan: None },
  EnumRow { name: "LifeFormHumanSpecificLasersClass", bits: 8, default: 1, codes: &[("GenericLaserDesignator", 1), ("GenericLaserPointer", 2)], actual: || vec![LifeFormHumanSpecificLasersClass::GenericLaserDesignator as u64, LifeFormHumanSpecificLasersClass::GenericLaserPointer as u64], decode: |mut b| { let v = LifeFormHumanSpecificLasersClass::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeFormHumanSpecificLasersClass as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeFormHumanSpecificLasersClass::GenericLaserDesignator, LifeFormHumanSpecificLasersClass::GenericLaserPointer], |v| v as u64), scan: None },
  EnumRow { name: "TransmitterDetailSATCOMModulation", bits: 16, default: 0, codes: &[("Other", 0), ("NoDelay", 1)], actual: || vec![TransmitterDetailSATCOMModulation::Other as u64, TransmitterDetailSATCOMModulation::NoDelay as u64], decode: |mut b| { let v = TransmitterDetailSATCOMModulation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <TransmitterDetailSATCOMModulation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[TransmitterDetailSATCOMModulation::Other, TransmitterDetailSATCOMModulation::NoDelay], |v| v as u64), scan: None },
  EnumRow { name: "SupplyDomain", bits: 8, default: 0, codes: &[("NotUsed", 0), ("Class1Subsistence", 1), ("Class2ClothingIndividualEquipmentToolsAdminSupplies", 2), ("Class3PetroleumOilsLubricants", 3), ("Class4ConstructionMaterials", 4), ("Class5Ammunition", 5), ("Class6PersonnelDemandItems", 6), ("Class7MajorItems", 7), ("Class8MedicalMaterial", 8), ("Class9RepairPartsandComponents", 9), ("Class10MaterialtoSupportNonMilitaryPrograms", 10), ("Class11Supplies", 11), ("Class12SlingLoads", 12)], actual: || vec![SupplyDomain::NotUsed as u64, SupplyDomain::Class1Subsistence as u64, SupplyDomain::Class2ClothingIndividualEquipmentToolsAdminSupplies as u64, SupplyDomain::Class3PetroleumOilsLubricants as u64, SupplyDomain::Class4ConstructionMaterials as u64, SupplyDomain::Class5Ammunition as u64, SupplyDomain::Class6PersonnelDemandItems as u64, SupplyDomain::Class7MajorItems as u64, SupplyDomain::Class8MedicalMaterial as u64, SupplyDomain::Class9RepairPartsandComponents as u64, SupplyDomain::Class10MaterialtoSupportNonMilitaryPrograms as u64, SupplyDomain::Class11Supplies as u64, SupplyDomain::Class12SlingLoads as u64], decode: |mut b| { let v = SupplyDomain::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SupplyDomain as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SupplyDomain::NotUsed, SupplyDomain::Class1Subsistence, SupplyDomain::Class2ClothingIndividualEquipmentToolsAdminSupplies, SupplyDomain::Class3PetroleumOilsLubricants, SupplyDomain::Class4ConstructionMaterials, SupplyDomain::Class5Ammunition, SupplyDomain::Class6PersonnelDemandItems, SupplyDomain::Class7MajorItems, SupplyDomain::Class8MedicalMaterial, SupplyDomain::Class9RepairPartsandComponents, SupplyDomain::Class10MaterialtoSupportNonMilitaryPrograms, SupplyDomain::Class11Supplies, SupplyDomain::Class12SlingLoads], |v| v as u64), scan: None },
  EnumRow { name: "Class1SupplyCategorySubsistence", bits: 8, default: 1, codes: &[("Other", 1), ("ANonPerishable", 2), ("CCombatRations", 3), ("RRefrigerated", 4), ("SOtherNonRefrigerated", 5), ("WWater", 6)], actual: || vec![Class1SupplyCategorySubsistence::Other as u64, Class1SupplyCategorySubsistence::ANonPerishable as u64, Class1SupplyCategorySubsistence::CCombatRations as u64, Class1SupplyCategorySubsistence::RRefrigerated as u64, Class1SupplyCategorySubsistence::SOtherNonRefrigerated as u64, Class1SupplyCategorySubsistence::WWater as u64], decode: |mut b| { let v = Class1SupplyCategorySubsistence::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class1SupplyCategorySubsistence as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class1SupplyCategorySubsistence::Other, Class1SupplyCategorySubsistence::ANonPerishable, Class1SupplyCategorySubsistence::CCombatRations, Class1SupplyCategorySubsistence::RRefrigerated, Class1SupplyCategorySubsistence::SOtherNonRefrigerated, Class1SupplyCategorySubsistence::WWater], |v| v as u64), scan: None },
  EnumRow { name: "Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies", bits: 8, default: 1, codes: &[("Other", 1), ("AAir", 2), ("BGroundSupportMateriel", 3), ("EGeneralSupplies", 4), ("FClothing", 5), ("GElectronics", 6), ("MWeapons", 7), ("TIndustrialSupplies", 8)], actual: || vec![Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::Other as u64, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::AAir as u64, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::BGroundSupportMateriel as u64, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::EGeneralSupplies as u64, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::FClothing as u64, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::GElectronics as u64, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::MWeapons as u64, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::TIndustrialSupplies as u64], decode: |mut b| { let v = Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::Other, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::AAir, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::BGroundSupportMateriel, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::EGeneralSupplies, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::FClothing, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::GElectronics, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::MWeapons, Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::TIndustrialSupplies], |v| v as u64), scan: None },
  EnumRow { name: "Class3SupplyCategoryPetroleumOilsLubricants", bits: 8, default: 1, codes: &[("Other", 1), ("APOLforAirVehicles", 2), ("WPOLforLandVehicles", 3), ("PPackagedPOL", 4)], actual: || vec![Class3SupplyCategoryPetroleumOilsLubricants::Other as u64, Class3SupplyCategoryPetroleumOilsLubricants::APOLforAirVehicles as u64, Class3SupplyCategoryPetroleumOilsLubricants::WPOLforLandVehicles as u64, Class3SupplyCategoryPetroleumOilsLubricants::PPackagedPOL as u64], decode: |mut b| { let v = Class3SupplyCategoryPetroleumOilsLubricants::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class3SupplyCategoryPetroleumOilsLubricants as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class3SupplyCategoryPetroleumOilsLubricants::Other, Class3SupplyCategoryPetroleumOilsLubricants::APOLforAirVehicles, Class3SupplyCategoryPetroleumOilsLubricants::WPOLforLandVehicles, Class3SupplyCategoryPetroleumOilsLubricants::PPackagedPOL], |v| v as u64), scan: None },
  EnumRow { name: "Class4SupplyCategoryConstructionMaterials", bits: 8, default: 1, codes: &[("Other", 1), ("AConstruction", 2), ("BBarrier", 3)], actual: || vec![Class4SupplyCategoryConstructionMaterials::Other as u64, Class4SupplyCategoryConstructionMaterials::AConstruction as u64, Class4SupplyCategoryConstructionMaterials::BBarrier as u64], decode: |mut b| { let v = Class4SupplyCategoryConstructionMaterials::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class4SupplyCategoryConstructionMaterials as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class4SupplyCategoryConstructionMaterials::Other, Class4SupplyCategoryConstructionMaterials::AConstruction, Class4SupplyCategoryConstructionMaterials::BBarrier], |v| v as u64), scan: None },
  EnumRow { name: "Class6SupplyCategoryPersonnelDemandItems", bits: 8, default: 1, codes: &[("Other", 1)], actual: || vec![Class6SupplyCategoryPersonnelDemandItems::Other as u64], decode: |mut b| { let v = Class6SupplyCategoryPersonnelDemandItems::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class6SupplyCategoryPersonnelDemandItems as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class6SupplyCategoryPersonnelDemandItems::Other], |v| v as u64), scan: None },
  EnumRow { name: "Class7SupplyCategoryMajorItems", bits: 8, default: 1, codes: &[("Other", 1), ("AAir", 2), ("BGroundSupportMateriel", 3), ("DAdminVehicles", 4), ("GElectronics", 5), ("JRacksAdaptorsPylons", 6), ("KTacticalVehicles", 7), ("LMissiles", 8), ("MWeapons", 9), ("NSpecialWeapons", 10), ("XAircraftEngines", 11), ("DropTank", 20), ("ConformalFuelTank", 21), ("LuggagePod", 22), ("ECMPod", 23), ("ParaDrogue", 24), ("TargetingPod", 25), ("Fairing", 26), ("AirRefuellingPod", 27), ("HeavyAirdrop", 28), ("ContainerDeliverySystemAirdrop", 29), ("RocketPodLauncher", 30), ("TacticalPod", 31), ("RECCEpod", 32), ("FLIRpod", 33)], actual: || vec![Class7SupplyCategoryMajorItems::Other as u64, Class7SupplyCategoryMajorItems::AAir as u64, Class7SupplyCategoryMajorItems::BGroundSupportMateriel as u64, Class7SupplyCategoryMajorItems::DAdminVehicles as u64, Class7SupplyCategoryMajorItems::GElectronics as u64, Class7SupplyCategoryMajorItems::JRacksAdaptorsPylons as u64, Class7SupplyCategoryMajorItems::KTacticalVehicles as u64, Class7SupplyCategoryMajorItems::LMissiles as u64, Class7SupplyCategoryMajorItems::MWeapons as u64, Class7SupplyCategoryMajorItems::NSpecialWeapons as u64, Class7SupplyCategoryMajorItems::XAircraftEngines as u64, Class7SupplyCategoryMajorItems::DropTank as u64, Class7SupplyCategoryMajorItems::ConformalFuelTank as u64, Class7SupplyCategoryMajorItems::LuggagePod as u64, Class7SupplyCategoryMajorItems::ECMPod as u64, Class7SupplyCategoryMajorItems::ParaDrogue as u64, Class7SupplyCategoryMajorItems::TargetingPod as u64, Class7SupplyCategoryMajorItems::Fairing as u64, Class7SupplyCategoryMajorItems::AirRefuellingPod as u64, Class7SupplyCategoryMajorItems::HeavyAirdrop as u64, Class7SupplyCategoryMajorItems::ContainerDeliverySystemAirdrop as u64, Class7SupplyCategoryMajorItems::RocketPodLauncher as u64, Class7SupplyCategoryMajorItems::TacticalPod as u64, Class7SupplyCategoryMajorItems::RECCEpod as u64, Class7SupplyCategoryMajorItems::FLIRpod as u64], decode: |mut b| { let v = Class7SupplyCategoryMajorItems::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class7SupplyCategoryMajorItems as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class7SupplyCategoryMajorItems::Other, Class7SupplyCategoryMajorItems::AAir, Class7SupplyCategoryMajorItems::BGroundSupportMateriel, Class7SupplyCategoryMajorItems::DAdminVehicles, Class7SupplyCategoryMajorItems::GElectronics, Class7SupplyCategoryMajorItems::JRacksAdaptorsPylons, Class7SupplyCategoryMajorItems::KTacticalVehicles, Class7SupplyCategoryMajorItems::LMissiles, Class7SupplyCategoryMajorItems::MWeapons, Class7SupplyCategoryMajorItems::NSpecialWeapons, Class7SupplyCategoryMajorItems::XAircraftEngines, Class7SupplyCategoryMajorItems::DropTank, Class7SupplyCategoryMajorItems::ConformalFuelTank, Class7SupplyCategoryMajorItems::LuggagePod, Class7SupplyCategoryMajorItems::ECMPod, Class7SupplyCategoryMajorItems::ParaDrogue, Class7SupplyCategoryMajorItems::TargetingPod, Class7SupplyCategoryMajorItems::Fairing, Class7SupplyCategoryMajorItems::AirRefuellingPod, Class7SupplyCategoryMajorItems::HeavyAirdrop, Class7SupplyCategoryMajorItems::ContainerDeliverySystemAirdrop, Class7SupplyCategoryMajorItems::RocketPodLauncher, Class7SupplyCategoryMajorItems::TacticalPod, Class7SupplyCategoryMajorItems::RECCEpod, Class7SupplyCategoryMajorItems::FLIRpod], |v| v as u64), scan: None },
  EnumRow { name: "Class8SupplyCategoryMedicalMaterial", bits: 8, default: 1, codes: &[("Other", 1), ("AMedicalMateriel", 2), ("BBloodFluids", 3)], actual: || vec![Class8SupplyCategoryMedicalMaterial::Other as u64, Class8SupplyCategoryMedicalMaterial::AMedicalMateriel as u64, Class8SupplyCategoryMedicalMaterial::BBloodFluids as u64], decode: |mut b| { let v = Class8SupplyCategoryMedicalMaterial::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class8SupplyCategoryMedicalMaterial as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class8SupplyCategoryMedicalMaterial::Other, Class8SupplyCategoryMedicalMaterial::AMedicalMateriel, Class8SupplyCategoryMedicalMaterial::BBloodFluids], |v| v as u64), scan: None },
  EnumRow { name: "Class9SupplyCategoryRepairPartsandComponents", bits: 8, default: 1, codes: &[("Other", 1), ("AAir", 2), ("BGroundSupportMateriel", 3), ("DAdminVehicles", 4), ("GElectronics", 5), ("KTacticalVehicles", 6), ("LMissiles", 7), ("MWeapons", 8), ("NSpecialWeapons", 9), ("XAircraftEngines", 10)], actual: || vec![Class9SupplyCategoryRepairPartsandComponents::Other as u64, Class9SupplyCategoryRepairPartsandComponents::AAir as u64, Class9SupplyCategoryRepairPartsandComponents::BGroundSupportMateriel as u64, Class9SupplyCategoryRepairPartsandComponents::DAdminVehicles as u64, Class9SupplyCategoryRepairPartsandComponents::GElectronics as u64, Class9SupplyCategoryRepairPartsandComponents::KTacticalVehicles as u64, Class9SupplyCategoryRepairPartsandComponents::LMissiles as u64, Class9SupplyCategoryRepairPartsandComponents::MWeapons as u64, Class9SupplyCategoryRepairPartsandComponents::NSpecialWeapons as u64, Class9SupplyCategoryRepairPartsandComponents::XAircraftEngines as u64], decode: |mut b| { let v = Class9SupplyCategoryRepairPartsandComponents::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class9SupplyCategoryRepairPartsandComponents as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class9SupplyCategoryRepairPartsandComponents::Other, Class9SupplyCategoryRepairPartsandComponents::AAir, Class9SupplyCategoryRepairPartsandComponents::BGroundSupportMateriel, Class9SupplyCategoryRepairPartsandComponents::DAdminVehicles, Class9SupplyCategoryRepairPartsandComponents::GElectronics, Class9SupplyCategoryRepairPartsandComponents::KTacticalVehicles, Class9SupplyCategoryRepairPartsandComponents::LMissiles, Class9SupplyCategoryRepairPartsandComponents::MWeapons, Class9SupplyCategoryRepairPartsandComponents::NSpecialWeapons, Class9SupplyCategoryRepairPartsandComponents::XAircraftEngines], |v| v as u64), scan: None },
  EnumRow { name: "Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms", bits: 8, default: 1, codes: &[("Other", 1)], actual: || vec![Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms::Other as u64], decode: |mut b| { let v = Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms::Other], |v| v as u64), scan: None },
  EnumRow { name: "Class11SupplyCategorySupplies", bits: 8, default: 1, codes: &[("Other", 1), ("Pallets", 2), ("FuelTanksDrumsandBladders", 3), ("Chests", 4), ("Boxes", 5)], actual: || vec![Class11SupplyCategorySupplies::Other as u64, Class11SupplyCategorySupplies::Pallets as u64, Class11SupplyCategorySupplies::FuelTanksDrumsandBladders as u64, Class11SupplyCategorySupplies::Chests as u64, Class11SupplyCategorySupplies::Boxes as u64], decode: |mut b| { let v = Class11SupplyCategorySupplies::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class11SupplyCategorySupplies as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class11SupplyCategorySupplies::Other, Class11SupplyCategorySupplies::Pallets, Class11SupplyCategorySupplies::FuelTanksDrumsandBladders, Class11SupplyCategorySupplies::Chests, Class11SupplyCategorySupplies::Boxes], |v| v as u64), scan: None },
  EnumRow { name: "Class12SupplyCategorySlingLoads", bits: 8, default: 1, codes: &[("Other", 1), ("SlingLoadBlivet", 2), ("SlingLoadCrate", 3), ("SlingLoadWaterBucket", 4), ("SlingLoadVehicles", 5), ("SlingLoadHowitzer", 6), ("SlingLoadCollapsible", 7), ("SlingLoadBladder", 8), ("SlingLoadPalletofCrates", 9), ("SlingLoadHelicopters", 10), ("SlingLoadHoist", 11), ("SlingLoadConcreteBlock", 12)], actual: || vec![Class12SupplyCategorySlingLoads::Other as u64, Class12SupplyCategorySlingLoads::SlingLoadBlivet as u64, Class12SupplyCategorySlingLoads::SlingLoadCrate as u64, Class12SupplyCategorySlingLoads::SlingLoadWaterBucket as u64, Class12SupplyCategorySlingLoads::SlingLoadVehicles as u64, Class12SupplyCategorySlingLoads::SlingLoadHowitzer as u64, Class12SupplyCategorySlingLoads::SlingLoadCollapsible as u64, Class12SupplyCategorySlingLoads::SlingLoadBladder as u64, Class12SupplyCategorySlingLoads::SlingLoadPalletofCrates as u64, Class12SupplyCategorySlingLoads::SlingLoadHelicopters as u64, Class12SupplyCategorySlingLoads::SlingLoadHoist as u64, Class12SupplyCategorySlingLoads::SlingLoadConcreteBlock as u64], decode: |mut b| { let v = Class12SupplyCategorySlingLoads::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Class12SupplyCategorySlingLoads as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Class12SupplyCategorySlingLoads::Other, Class12SupplyCategorySlingLoads::SlingLoadBlivet, Class12SupplyCategorySlingLoads::SlingLoadCrate, Class12SupplyCategorySlingLoads::SlingLoadWaterBucket, Class12SupplyCategorySlingLoads::SlingLoadVehicles, Class12SupplyCategorySlingLoads::SlingLoadHowitzer, Class12SupplyCategorySlingLoads::SlingLoadCollapsible, Class12SupplyCategorySlingLoads::SlingLoadBladder, Class12SupplyCategorySlingLoads::SlingLoadPalletofCrates, Class12SupplyCategorySlingLoads::SlingLoadHelicopters, Class12SupplyCategorySlingLoads::SlingLoadHoist, Class12SupplyCategorySlingLoads::SlingLoadConcreteBlock], |v| v as u64), scan: None },
  EnumRow { name: "LifeSavingEquipment", bits: 8, default: 1, codes: &[("Lifeboat", 1), ("Liferaft", 2), ("MOBBoat", 3), ("Lifebuoy", 4)], actual: || vec![LifeSavingEquipment::Lifeboat as u64, LifeSavingEquipment::Liferaft as u64, LifeSavingEquipment::MOBBoat as u64, LifeSavingEquipment::Lifebuoy as u64], decode: |mut b| { let v = LifeSavingEquipment::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <LifeSavingEquipment as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[LifeSavingEquipment::Lifeboat, LifeSavingEquipment::Liferaft, LifeSavingEquipment::MOBBoat, LifeSavingEquipment::Lifebuoy], |v| v as u64), scan: None },
  EnumRow { name: "IslandSubcategory", bits: 16, default: 0, codes: &[("Other", 0), ("Islands10002499km2", 1), ("Islands25004999km2", 2), ("Islands50009999km2", 3), ("Islands1000024999km2", 4), ("Islands2500099999km2", 5), ("Islands100000km2andGreater", 6)], actual: || vec![IslandSubcategory::Other as u64, IslandSubcategory::Islands10002499km2 as u64, IslandSubcategory::Islands25004999km2 as u64, IslandSubcategory::Islands50009999km2 as u64, IslandSubcategory::Islands1000024999km2 as u64, IslandSubcategory::Islands2500099999km2 as u64, IslandSubcategory::Islands100000km2andGreater as u64], decode: |mut b| { let v = IslandSubcategory::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <IslandSubcategory as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[IslandSubcategory::Other, IslandSubcategory::Islands10002499km2, IslandSubcategory::Islands25004999km2, IslandSubcategory::Islands50009999km2, IslandSubcategory::Islands1000024999km2, IslandSubcategory::Islands2500099999km2, IslandSubcategory::Islands100000km2andGreater], |v| v as u64), scan: None },
  EnumRow { name: "Link11MessageSubType", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Interrogation", 1), ("DataStart", 2), ("Data", 3), ("DataStop", 4)], actual: || vec![Link11MessageSubType::NoStatement as u64, Link11MessageSubType::Interrogation as u64, Link11MessageSubType::DataStart as u64, Link11MessageSubType::Data as u64, Link11MessageSubType::DataStop as u64], decode: |mut b| { let v = Link11MessageSubType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11MessageSubType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11MessageSubType::NoStatement, Link11MessageSubType::Interrogation, Link11MessageSubType::DataStart, Link11MessageSubType::Data, Link11MessageSubType::DataStop], |v| v as u64), scan: None },
  EnumRow { name: "Link11MessageTypeIdentifier", bits: 8, default: 0, codes: &[("NoStatement", 0), ("NetTest", 1), ("RollCall", 2), ("PicketReply", 3), ("ShortBroadcast", 4), ("Broadcast", 5), ("NetSync", 6)], actual: || vec![Link11MessageTypeIdentifier::NoStatement as u64, Link11MessageTypeIdentifier::NetTest as u64, Link11MessageTypeIdentifier::RollCall as u64, Link11MessageTypeIdentifier::PicketReply as u64, Link11MessageTypeIdentifier::ShortBroadcast as u64, Link11MessageTypeIdentifier::Broadcast as u64, Link11MessageTypeIdentifier::NetSync as u64], decode: |mut b| { let v = Link11MessageTypeIdentifier::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11MessageTypeIdentifier as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11MessageTypeIdentifier::NoStatement, Link11MessageTypeIdentifier::NetTest, Link11MessageTypeIdentifier::RollCall, Link11MessageTypeIdentifier::PicketReply, Link11MessageTypeIdentifier::ShortBroadcast, Link11MessageTypeIdentifier::Broadcast, Link11MessageTypeIdentifier::NetSync], |v| v as u64), scan: None },
  EnumRow { name: "Link11DataSignallingRate", bits: 8, default: 0, codes: &[("NoStatement", 0), ("_1364bps", 1), ("_2250bps", 2), ("_1200bps", 3), ("_2400bps", 4)], actual: || vec![Link11DataSignallingRate::NoStatement as u64, Link11DataSignallingRate::_1364bps as u64, Link11DataSignallingRate::_2250bps as u64, Link11DataSignallingRate::_1200bps as u64, Link11DataSignallingRate::_2400bps as u64], decode: |mut b| { let v = Link11DataSignallingRate::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11DataSignallingRate as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11DataSignallingRate::NoStatement, Link11DataSignallingRate::_1364bps, Link11DataSignallingRate::_2250bps, Link11DataSignallingRate::_1200bps, Link11DataSignallingRate::_2400bps], |v| v as u64), scan: None },
  EnumRow { name: "Link11SignalIntegrationInterval", bits: 8, default: 0, codes: &[("NoStatement", 0), ("_9ms", 1), ("_18ms", 2)], actual: || vec![Link11SignalIntegrationInterval::NoStatement as u64, Link11SignalIntegrationInterval::_9ms as u64, Link11SignalIntegrationInterval::_18ms as u64], decode: |mut b| { let v = Link11SignalIntegrationInterval::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11SignalIntegrationInterval as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11SignalIntegrationInterval::NoStatement, Link11SignalIntegrationInterval::_9ms, Link11SignalIntegrationInterval::_18ms], |v| v as u64), scan: None },
  EnumRow { name: "Link11SignalWaveform", bits: 8, default: 0, codes: &[("NoStatementCLEWFormat", 0), ("ConventionalLinkElevenWaveform", 1), ("SingleToneLinkElevenWaveform", 2)], actual: || vec![Link11SignalWaveform::NoStatementCLEWFormat as u64, Link11SignalWaveform::ConventionalLinkElevenWaveform as u64, Link11SignalWaveform::SingleToneLinkElevenWaveform as u64], decode: |mut b| { let v = Link11SignalWaveform::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11SignalWaveform as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11SignalWaveform::NoStatementCLEWFormat, Link11SignalWaveform::ConventionalLinkElevenWaveform, Link11SignalWaveform::SingleToneLinkElevenWaveform], |v| v as u64), scan: None },
  EnumRow { name: "Link11_11BEncryptionFlag", bits: 8, default: 0, codes: &[("NoEncryptionUsed", 0), ("EncryptionUsed", 1)], actual: || vec![Link11_11BEncryptionFlag::NoEncryptionUsed as u64, Link11_11BEncryptionFlag::EncryptionUsed as u64], decode: |mut b| { let v = Link11_11BEncryptionFlag::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11_11BEncryptionFlag as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11_11BEncryptionFlag::NoEncryptionUsed, Link11_11BEncryptionFlag::EncryptionUsed], |v| v as u64), scan: None },
  EnumRow { name: "SISOSTD002Version", bits: 8, default: 0, codes: &[("SISOSTD0022006", 0), ("SISOSTD0022021", 1)], actual: || vec![SISOSTD002Version::SISOSTD0022006 as u64, SISOSTD002Version::SISOSTD0022021 as u64], decode: |mut b| { let v = SISOSTD002Version::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <SISOSTD002Version as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[SISOSTD002Version::SISOSTD0022006, SISOSTD002Version::SISOSTD0022021], |v| v as u64), scan: None },
  EnumRow { name: "Link11BLinkState", bits: 8, default: 0, codes: &[("NoStatement", 0), ("Inactive", 1), ("Ready", 2), ("Active", 3), ("Operational", 4)], actual: || vec![Link11BLinkState::NoStatement as u64, Link11BLinkState::Inactive as u64, Link11BLinkState::Ready as u64, Link11BLinkState::Active as u64, Link11BLinkState::Operational as u64], decode: |mut b| { let v = Link11BLinkState::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11BLinkState as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11BLinkState::NoStatement, Link11BLinkState::Inactive, Link11BLinkState::Ready, Link11BLinkState::Active, Link11BLinkState::Operational], |v| v as u64), scan: None },
  EnumRow { name: "Link11BModeofOperation", bits: 16, default: 0, codes: &[("NoStatement", 0), ("FullTransmissionofData", 1), ("LimitedTransmissionofData", 2), ("Receiveonly", 3)], actual: || vec![Link11BModeofOperation::NoStatement as u64, Link11BModeofOperation::FullTransmissionofData as u64, Link11BModeofOperation::LimitedTransmissionofData as u64, Link11BModeofOperation::Receiveonly as u64], decode: |mut b| { let v = Link11BModeofOperation::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11BModeofOperation as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11BModeofOperation::NoStatement, Link11BModeofOperation::FullTransmissionofData, Link11BModeofOperation::LimitedTransmissionofData, Link11BModeofOperation::Receiveonly], |v| v as u64), scan: None },
  EnumRow { name: "Link11BMessageSubType", bits: 8, default: 0, codes: &[("NoStatement", 0), ("TransmissionFrame", 1), ("StandbySignal", 2)], actual: || vec![Link11BMessageSubType::NoStatement as u64, Link11BMessageSubType::TransmissionFrame as u64, Link11BMessageSubType::StandbySignal as u64], decode: |mut b| { let v = Link11BMessageSubType::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11BMessageSubType as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11BMessageSubType::NoStatement, Link11BMessageSubType::TransmissionFrame, Link11BMessageSubType::StandbySignal], |v| v as u64), scan: None },
  EnumRow { name: "Link11BDataSignalingRate", bits: 8, default: 0, codes: &[("NoStatement", 0), ("_1200bps", 3), ("_2400bps", 4), ("_600bps", 5)], actual: || vec![Link11BDataSignalingRate::NoStatement as u64, Link11BDataSignalingRate::_1200bps as u64, Link11BDataSignalingRate::_2400bps as u64, Link11BDataSignalingRate::_600bps as u64], decode: |mut b| { let v = Link11BDataSignalingRate::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11BDataSignalingRate as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11BDataSignalingRate::NoStatement, Link11BDataSignalingRate::_1200bps, Link11BDataSignalingRate::_2400bps, Link11BDataSignalingRate::_600bps], |v| v as u64), scan: None },
  EnumRow { name: "Link11BModulationStandard", bits: 8, default: 0, codes: &[("NoStatement", 0), ("CCITTV_23", 1)], actual: || vec![Link11BModulationStandard::NoStatement as u64, Link11BModulationStandard::CCITTV_23 as u64], decode: |mut b| { let v = Link11BModulationStandard::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link11BModulationStandard as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link11BModulationStandard::NoStatement, Link11BModulationStandard::CCITTV_23], |v| v as u64), scan: None },
  EnumRow { name: "CIGIExtensionPacketID", bits: 16, default: 4096, codes: &[("ImageCaptureRequestpacketID", 4096), ("ImageCaptureResponsepacketID", 4097), ("StateNotificationRequestPacketID", 4098), ("StateNotificationResponsePacketID", 4099), ("GlobalRefFrameDefPacketID", 5000)], actual: || vec![CIGIExtensionPacketID::ImageCaptureRequestpacketID as u64, CIGIExtensionPacketID::ImageCaptureResponsepacketID as u64, CIGIExtensionPacketID::StateNotificationRequestPacketID as u64, CIGIExtensionPacketID::StateNotificationResponsePacketID as u64, CIGIExtensionPacketID::GlobalRefFrameDefPacketID as u64], decode: |mut b| { let v = CIGIExtensionPacketID::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <CIGIExtensionPacketID as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[CIGIExtensionPacketID::ImageCaptureRequestpacketID, CIGIExtensionPacketID::ImageCaptureResponsepacketID, CIGIExtensionPacketID::StateNotificationRequestPacketID, CIGIExtensionPacketID::StateNotificationResponsePacketID, CIGIExtensionPacketID::GlobalRefFrameDefPacketID], |v| v as u64), scan: None },
  EnumRow { name: "Link16Version", bits: 8, default: 0, codes: &[("NoStatement", 0), ("MILSTD6016C", 1), ("MILSTD6016D", 2), ("MILSTD6016E", 3), ("MILSTD6016F", 4), ("MILSTD6016FC1", 5), ("STANAG5516Ed3", 103), ("STANAG5516Ed4", 104), ("STANAG5516Ed5", 105), ("STANAG5516Ed6", 106), ("STANAG5516Ed8", 108)], actual: || vec![Link16Version::NoStatement as u64, Link16Version::MILSTD6016C as u64, Link16Version::MILSTD6016D as u64, Link16Version::MILSTD6016E as u64, Link16Version::MILSTD6016F as u64, Link16Version::MILSTD6016FC1 as u64, Link16Version::STANAG5516Ed3 as u64, Link16Version::STANAG5516Ed4 as u64, Link16Version::STANAG5516Ed5 as u64, Link16Version::STANAG5516Ed6 as u64, Link16Version::STANAG5516Ed8 as u64], decode: |mut b| { let v = Link16Version::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <Link16Version as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[Link16Version::NoStatement, Link16Version::MILSTD6016C, Link16Version::MILSTD6016D, Link16Version::MILSTD6016E, Link16Version::MILSTD6016F, Link16Version::MILSTD6016FC1, Link16Version::STANAG5516Ed3, Link16Version::STANAG5516Ed4, Link16Version::STANAG5516Ed5, Link16Version::STANAG5516Ed6, Link16Version::STANAG5516Ed8], |v| v as u64), scan: None },
  EnumRow { name: "AircraftIDSource", bits: 8, default: 0, codes: &[("ModeSAircraftIdentificationFieldValue", 0), ("GICBIFFDataRecordAvailable", 1)], actual: || vec![AircraftIDSource::ModeSAircraftIdentificationFieldValue as u64, AircraftIDSource::GICBIFFDataRecordAvailable as u64], decode: |mut b| { let v = AircraftIDSource::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <AircraftIDSource as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[AircraftIDSource::ModeSAircraftIdentificationFieldValue, AircraftIDSource::GICBIFFDataRecordAvailable], |v| v as u64), scan: None },
  EnumRow { name: "ClothingIRSignature", bits: 8, default: 0, codes: &[("StandardClothing", 0), ("Camouflage", 1), ("ThermalBlanket", 2), ("Other", 3)], actual: || vec![ClothingIRSignature::StandardClothing as u64, ClothingIRSignature::Camouflage as u64, ClothingIRSignature::ThermalBlanket as u64, ClothingIRSignature::Other as u64], decode: |mut b| { let v = ClothingIRSignature::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <ClothingIRSignature as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[ClothingIRSignature::StandardClothing, ClothingIRSignature::Camouflage, ClothingIRSignature::ThermalBlanket, ClothingIRSignature::Other], |v| v as u64), scan: None },
  EnumRow { name: "DamageArea", bits: 8, default: 0, codes: &[("DamageArea1orNotApplicableifDamageAreasarenotdefined_", 0), ("DamageArea2", 1), ("DamageArea3", 2), ("DamageArea4", 3), ("DamageArea5", 4), ("DamageArea6", 5), ("DamageArea7", 6), ("DamageArea8", 7)], actual: || vec![DamageArea::DamageArea1orNotApplicableifDamageAreasarenotdefined_ as u64, DamageArea::DamageArea2 as u64, DamageArea::DamageArea3 as u64, DamageArea::DamageArea4 as u64, DamageArea::DamageArea5 as u64, DamageArea::DamageArea6 as u64, DamageArea::DamageArea7 as u64, DamageArea::DamageArea8 as u64], decode: |mut b| { let v = DamageArea::deserialize(&mut b); (v as u64, format!("{v:?}")) }, dflt: Some(|| <DamageArea as Default>::default() as u64), field: None, pairs: || crate::core::pairs(&[DamageArea::DamageArea1orNotApplicableifDamageAreasarenotdefined_, DamageArea::DamageArea2, DamageArea::DamageArea3, DamageArea::DamageArea4, DamageArea::DamageArea5, DamageArea::DamageArea6, DamageArea::DamageArea7, DamageArea::DamageArea8], |v| v as u64), scan: None },
];
