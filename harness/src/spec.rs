// Generated by tools/gen.py from spec/wire.txt and spec/enums.txt. Do not edit.
#![allow(clippy::all, deprecated, unused_imports, unused_variables, unused_mut)]
use crate::core::*;
use crate::custom::*;
use bytes::{Buf, BytesMut};
use open_dis_rust::common::{Pdu, PduHeader, SerializedLength, DISError, enums::{self, *}};
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::acoustic_beam_data::AcousticBeamData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::acoustic_emitter_system::AcousticEmitterSystem;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::acoustic_emitter_system_data::AcousticEmitterSystemData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::aggregate_id::AggregateId;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::aggregate_marking::AggregateMarking;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::angular_velocity_vector::AngularVelocity;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::apa_data::ApaData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::attribute_record::AttributeRecord;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::attribute_record_set::AttributeRecordSet;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::beam_data::BeamData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::clock_time::ClockTime;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::datum_records::FixedDatumRecord;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::dead_reckoning_parameters::DeadReckoningParameters;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::directed_energy_damage::DirectedEnergyDamage;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::emitter_system::EmitterSystem;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::entity_coordinate_vector::EntityCoordinateVector;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::entity_id::EntityId;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::entity_type::EntityType;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::environment::Environment;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::euler_angles::EulerAngles;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::event_id::EventId;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::fundamental_operational_data::FundamentalOperationalData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::fundamental_parameter_data::FundamentalParameterData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::iff_fundamental_parameter_data::IFFFundamentalParameterData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::intercom_communications_parameters::IntercomCommunicationsParameters;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::layer_header::LayerHeader;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::linear_acceleration::LinearAcceleration;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::linear_segment_parameter::LinearSegmentParameter;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::linear_velocity::LinearVelocity;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::minefield_identifier::MinefieldIdentifier;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::modulation_type::ModulationType;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::munition_descriptor::MunitionDescriptor;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::named_location::NamedLocation;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::object_identifier::ObjectIdentifier;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::object_type::ObjectType;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::point::Point;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::propulsion_system_data::PropulsionSystemData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::radio_entity_type::RadioEntityType;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::record_specification::RecordSpecification;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::relationship::Relationship;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::secondary_operational_data::SecondaryOperationalData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::shaft_rpms::ShaftRPMs;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::simulation_address::SimulationAddress;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::simulation_id::SimulationIdentifier;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::standard_variable_records::StandardVariableRecords;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::standard_variable_specification::StandardVariableSpecification;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::supply_quantity::SupplyQuantity;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::system_id::SystemId;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::track_jam_target::TrackJamTarget;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::variable_parameter::VariableParameter;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::variable_transmitter_parameters::VariableTransmitterParameters;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::vector3_double::Vector3Double;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::vector3_float::Vector3Float;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::vectoring_nozzle_system_data::VectoringNozzleSystemData;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::velocity_vector::VelocityVector;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::world_coordinate::WorldCoordinate;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::antenna_pattern::AntennaPattern;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::datum_records::VariableDatumRecord;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::entity_marking::EntityMarking;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::grid_axis_descriptor::GridAxisDescriptor;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::grid_data_record::GridDataRecord;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::modulation_parameters::ModulationParameters;
#[allow(unused_imports)] pub use open_dis_rust::common::data_types::record_specification_element::RecordSpecificationElement;
pub use open_dis_rust::distributed_emissions::*;
pub use open_dis_rust::entity_information::*;
pub use open_dis_rust::entity_management::*;
pub use open_dis_rust::information_operations::*;
pub use open_dis_rust::logistics::*;
pub use open_dis_rust::minefield::*;
pub use open_dis_rust::radio_communications::*;
pub use open_dis_rust::simulation_management::*;
pub use open_dis_rust::simulation_management_with_reliability::*;
pub use open_dis_rust::synthetic_environment::*;
pub use open_dis_rust::warfare::*;
wire_enum!(AcknowledgeFlag, 2, CreateEntity, [(CreateEntity, 1), (RemoveEntity, 2), (StartResume, 3), (StopFreeze, 4), (TransferOwnership, 5)]);
wire_enum!(AcknowledgeResponseFlag, 2, Other, [(Other, 0), (AbleToComply, 1), (UnableToComply, 2), (PendingOperatorAction, 3)]);
wire_enum!(ActionResponseRequestStatus, 4, Other, [(Other, 0), (Pending, 1), (Executing, 2), (PartiallyComplete, 3), (Complete, 4), (RequestRejected, 5), (RetransmitRequestNow, 6), (RetransmitRequestLater, 7), (InvalidTimeParameters, 8), (SimulationTimeExceeded, 9), (RequestDone, 10), (TACCSFLOSReplyTypeOne, 100), (TACCSFLOSReplyTypeTwo, 101), (JoinExerciseRequestRejected, 201)]);
wire_enum!(AggregateStateAggregateState, 1, Other, [(Other, 0), (Aggregated, 1), (Disaggregated, 2), (Fullydisaggregated, 3), (Pseudodisaggregated, 4), (Partiallydisaggregated, 5)]);
wire_enum!(AggregateStateFormation, 4, Other, [(Other, 0), (Assembly, 1), (Vee, 2), (Wedge, 3), (Line, 4), (Column, 5)]);
wire_enum!(ComponentDamageStatus, 1, NoDamage, [(NoDamage, 0), (MinorDamage, 1), (MediumDamage, 2), (MajorDamage, 3), (Destroyed, 4)]);
wire_enum!(ComponentIdentification, 1, EntityCenter, [(EntityCenter, 0), (EntityStructure, 1), (ControlSystem, 2), (ControlSurface, 3), (EnginePropulsionSystem, 4), (CrewMember, 5), (Fuse, 6), (AcquisitionSensor, 7), (TrackingSensor, 8), (FuelTankSolidRocketMotor, 9)]);
wire_enum!(ComponentVisualSmokeColor, 1, NoSmoke, [(NoSmoke, 0), (White, 1), (Gray, 2), (Black, 3)]);
wire_enum!(Country, 2, Other, [(Other, 0), (Afghanistan, 1), (Albania, 2), (Algeria, 3), (AmericanSamoa, 4), (Andorra, 5), (Angola, 6), (Anguilla, 7), (Antarctica, 8), (AntiguaandBarbuda, 9), (Argentina, 10), (Aruba, 11), (AshmoreandCartierIslands, 12), (Australia, 13), (Austria, 14), (Bahamas, 15), (Bahrain, 16), (BakerIsland, 17), (Bangladesh, 18), (Barbados, 19), (BassasdaIndia, 20), (Belgium, 21), (Belize, 22), (Benin, 23), (Bermuda, 24), (Bhutan, 25), (Bolivia, 26), (Botswana, 27), (BouvetIsland, 28), (Brazil, 29), (BritishIndianOceanTerritory, 30), (VirginIslandsBritish, 31), (BruneiDarussalam, 32), (Bulgaria, 33), (BurkinaFaso, 34), (Myanmar, 35), (Burundi, 36), (Cambodia, 37), (Cameroon, 38), (Canada, 39), (CaboVerde, 40), (CaymanIslands, 41), (CentralAfricanRepublic, 42), (Chad, 43), (Chile, 44), (ChinaPeoplesRepublicof, 45), (ChristmasIsland, 46), (Cocos, 47), (Colombia, 48), (Comoros, 49), (Congo, 50), (CookIslands, 51), (CoralSeaIslands, 52), (CostaRica, 53), (Cuba, 54), (Cyprus, 55), (Czechoslovakia, 56), (Denmark, 57), (Djibouti, 58), (Dominica, 59), (DominicanRepublic, 60), (Ecuador, 61), (Egypt, 62), (ElSalvador, 63), (EquatorialGuinea, 64), (Ethiopia, 65), (EuropaIsland, 66), (FalklandIslands, 67), (FaroeIslands, 68), (Fiji, 69), (Finland, 70), (France, 71), (FrenchGuiana, 72), (FrenchPolynesia, 73), (FrenchSouthernTerritories, 74), (Gabon, 75), (GambiaThe, 76), (GazaStrip, 77), (Germany, 78), (Ghana, 79), (Gibraltar, 80), (GloriosoIslands, 81), (Greece, 82), (Greenland, 83), (Grenada, 84), (Guadeloupe, 85), (Guam, 86), (Guatemala, 87), (Guernsey, 88), (Guinea, 89), (GuineaBissau, 90), (Guyana, 91), (Haiti, 92), (HeardIslandandMcDonaldIslands, 93), (Honduras, 94), (HongKong, 95), (HowlandIsland, 96), (Hungary, 97), (Iceland, 98), (India, 99), (Indonesia, 100), (Iran, 101), (Iraq, 102), (Ireland, 104), (Israel, 105), (Italy, 106), (CotedIvoire, 107), (Jamaica, 108), (JanMayen, 109), (Japan, 110), (JarvisIsland, 111), (Jersey, 112), (JohnstonAtoll, 113), (Jordan, 114), (JuandeNovaIsland, 115), (Kenya, 116), (KingmanReef, 117), (Kiribati, 118), (KoreaDemocraticPeoplesRepublicOf, 119), (KoreaRepublicOf, 120), (Kuwait, 121), (LaoPeoplesDemocraticRepublic, 122), (Lebanon, 123), (Lesotho, 124), (Liberia, 125), (Libya, 126), (Liechtenstein, 127), (Luxembourg, 128), (Madagascar, 129), (Macao, 130), (Malawi, 131), (Malaysia, 132), (Maldives, 133), (Mali, 134), (Malta, 135), (IsleofMan, 136), (MarshallIslands, 137), (Martinique, 138), (Mauritania, 139), (Mauritius, 140), (Mayotte, 141), (Mexico, 142), (Micronesia, 143), (Monaco, 144), (Mongolia, 145), (Montserrat, 146), (Morocco, 147), (Mozambique, 148), (Namibia, 149), (Nauru, 150), (NavassaIsland, 151), (Nepal, 152), (Netherlands, 153), (NetherlandsAntilles, 154), (NewCaledonia, 155), (NewZealand, 156), (Nicaragua, 157), (Niger, 158), (Nigeria, 159), (Niue, 160), (NorfolkIsland, 161), (NorthernMarianaIslands, 162), (Norway, 163), (Oman, 164), (Pakistan, 165), (PalmyraAtoll, 166), (Panama, 168), (PapuaNewGuinea, 169), (ParacelIslands, 170), (Paraguay, 171), (Peru, 172), (Philippines, 173), (Pitcairn, 174), (Poland, 175), (Portugal, 176), (PuertoRico, 177), (Qatar, 178), (Reunion, 179), (Romania, 180), (Rwanda, 181), (SaintKittsandNevis, 182), (SaintHelenaAscensionandTristandaCunha, 183), (SaintLucia, 184), (SaintPierreandMiquelon, 185), (SaintVincentandtheGrenadines, 186), (SanMarino, 187), (SaoTomeandPrincipe, 188), (SaudiArabia, 189), (Senegal, 190), (Seychelles, 191), (SierraLeone, 192), (Singapore, 193), (SolomonIslands, 194), (Somalia, 195), (SouthGeorgiaandtheSouthSandwichIslands, 196), (SouthAfrica, 197), (Spain, 198), (SpratlyIslands, 199), (SriLanka, 200), (Sudan, 201), (Suriname, 202), (Svalbard, 203), (Eswatini, 204), (Sweden, 205), (Switzerland, 206), (SyrianArabRepublic, 207), (TaiwanProvinceofChina, 208), (TanzaniaUnitedRepublicof, 209), (Thailand, 210), (Togo, 211), (Tokelau, 212), (Tonga, 213), (TrinidadandTobago, 214), (TromelinIsland, 215), (Palau, 216), (Tunisia, 217), (Turkey, 218), (TurksandCaicosIslands, 219), (Tuvalu, 220), (Uganda, 221), (Russia, 222), (UnitedArabEmirates, 223), (UnitedKingdomofGreatBritainandNorthernIreland, 224), (UnitedStatesofAmerica, 225), (Uruguay, 226), (Vanuatu, 227), (HolySee, 228), (Venezuela, 229), (VietNam, 230), (VirginIslandsUS, 231), (WakeIsland, 232), (WallisandFutuna, 233), (WesternSahara, 234), (WestBank, 235), (Samoa, 236), (Yemen, 237), (SerbiaandMontenegro_, 240), (Zaire, 241), (Zambia, 242), (Zimbabwe, 243), (Armenia, 244), (Azerbaijan, 245), (Belarus, 246), (BosniaandHerzegovina, 247), (ClippertonIsland, 248), (Croatia, 249), (Estonia, 250), (Georgia, 251), (Kazakhstan, 252), (Kyrgyzstan, 253), (Latvia, 254), (Lithuania, 255), (NorthMacedonia, 256), (MidwayIslands, 257), (Moldova, 258), (Montenegro, 259), (Russia_, 260), (SerbiaAndMontenegro__, 261), (Slovenia, 262), (Tajikistan, 263), (Turkmenistan, 264), (Ukraine, 265), (Uzbekistan, 266), (CzechRepublic, 267), (Slovakia, 268), (AalandIslands, 269), (BonaireSintEustatiusandSaba, 270), (CongoDemocraticRepublicOfThe, 271), (Curacao, 272), (Eritrea, 273), (SaintBarthelemy, 274), (SaintMartin, 275), (Serbia, 276), (SintMaarten, 277), (SouthSudan, 278), (SvalbardandJanMayen, 279), (TimorLeste, 280), (UnitedStatesMinorOutlyingIslands, 281), (PalestineStateof, 282)]);
wire_enum!(DEFirePulseShape, 1, Other, [(Other, 0), (SquareWave, 1), (ContinuousWave, 2), (Gaussian, 3)]);
wire_enum!(DISAttributeActionCode, 1, NoStatement, [(NoStatement, 0)]);
wire_enum!(DISLiveEntitySubprotocolNumber, 1, NoSubprotocol, [(NoSubprotocol, 0)]);
wire_enum!(DeadReckoningAlgorithm, 1, Other, [(Other, 0), (StaticNonmovingEntity, 1), (DRMConstantVelocityLowAccelerationLinearMotionEntity, 2), (DRMConstantVelocityLowAccelerationLinearMotionEntitywithExtrapolationofOrientation, 3), (DRMHighSpeedorManeuveringEntitywithExtrapolationofOrientation, 4), (DRMHighSpeedorManeuveringEntity, 5), (DRMSimilartoFPWexceptinBodyCoordinates, 6), (DRMSimilartoRPWexceptinBodyCoordinates, 7), (DRMSimilartoRVWexceptinBodyCoordinates, 8), (DRMSimilartoFVWexceptinBodyCoordinates, 9)]);
wire_enum!(DesignatorCode, 2, Other, [(Other, 0)]);
wire_enum!(DesignatorSystemName, 2, NotSpecified, [(NotSpecified, 0), (ANAAQ4, 1000), (ANAAQ7, 1100), (ANAAQ8, 1200), (ANAAQ14LANTIRN, 1300), (ANAAQ19, 1400), (ANAAQ22ASAFIRE, 1500), (ANAAQ22BSAFIRELP, 1600), (ANAAQ22CStarSAFIREI, 1700), (ANAAQ22DBRITEStar, 1800), (ANAAQ24DIRCMNemesis, 1900), (ANAAQ25LTS, 2000), (ANAAQ28LITENINGII, 2100), (ANAAQ30, 2200), (ANAAQ32, 2300), (ANAAQ33Sniper, 2400), (ANAAQ37, 2500), (ANAAQ38, 2600), (ANAAQ40, 2650), (ANAAS32, 2700), (ANAAS35V, 2800), (ANAAS37, 2900), (ANAAS38, 3000), (ANAAS44, 3100), (ANAAS46, 3200), (ANAAS49, 3300), (ANAAS51, 3400), (ANAAS52MTSA, 3500), (ANALQ10, 3600), (ANASQ228, 3700), (ANAVQ25, 4400), (ANAVQ26, 4500), (ANGVS5, 4600), (ANPED1LLDR, 4700), (TADSLRFD, 4800), (MMSLRFD, 4900), (AH1CNITE, 5000), (MATES, 5100), (TCV115, 5200), (TIM, 5300), (TMS303, 5400), (TMY303, 5500), (ALRAD, 5600), (RFTDL, 5700), (VVLR, 5800), (P0705HELL, 6000), (P0708PULSE, 6100), (HELD, 6200), (TYPE105, 6300), (TYPE118, 6400), (TYPE121, 6500), (TYPE126, 6600), (TYPE629, 6700), (CLDS, 6800), (TAV38, 6900), (TMV630, 7000), (ALTM1020, 7100), (ALATS, 7200), (DarkStarLAMPS, 7300), (GLTDII, 7400), (MBTELRF, 7500), (MarkVII, 7600), (SIREV, 7700), (ANAAQ16B, 7800), (ANAAQ16DAESOP, 7900), (ANAAQ21StarSAFIREIII, 8000), (ANAAQ22EBRITEStar, 8100), (ANAAQ36StarSAFIREII, 8200), (ANAAS38ANiteHawk, 8300), (ANAAS38BNiteHawk, 8400), (ANAAS44C, 8500), (ANAAS53CSP, 8600), (ANASQ28ATFLIR, 8700), (ANDAS1MTSB, 8800), (ANPAQ1LTD, 8900), (ANPAQ3MULE, 9000), (ANPEQ1SOFLAM, 9090), (ANPEQ3, 9100), (ANPEQ15ATPIAL, 9140), (ANPEQ18IZLID1000P, 9150), (ANTVQ2GVLLD, 9200), (ANZSQ21EOS, 9300), (ANZSQ22EOS, 9400), (CIRCM, 9500), (Guardian, 9600), (IZLID200P, 9700), (IZLID1000PW, 9800), (MMS, 9900), (MTADSPNVSArrowhead, 10000), (RBS70, 10100), (RBS90, 10200), (TADSPNVS, 10300), (COLIBRI, 10400), (Damocles, 10500), (I251Shkval, 10600), (KPS53AVEOTS, 10700), (StarSAFIRE380, 10800), (JANUSTEOS, 10900), (LOTHAREOS, 11000), (MK46MOD1EOS, 11100), (MTK201MEEOS, 11200), (ThalesMiradorMk2EOS, 11300), (TPN1M4923EOS, 11400)]);
wire_enum!(DetonationResult, 1, Other, [(Other, 0), (EntityImpact, 1), (EntityProximateDetonation, 2), (GroundImpact, 3), (GroundProximateDetonation, 4), (Detonation, 5), (NoneorNoDetonation, 6), (HEhitsmall, 7), (HEhitmedium, 8), (HEhitlarge, 9), (Armorpiercinghit, 10), (Dirtblastsmall, 11), (Dirtblastmedium, 12), (Dirtblastlarge, 13), (Waterblastsmall, 14), (Waterblastmedium, 15), (Waterblastlarge, 16), (Airhit, 17), (Buildinghitsmall, 18), (Buildinghitmedium, 19), (Buildinghitlarge, 20), (Mineclearinglinecharge, 21), (Environmentobjectimpact, 22), (Environmentobjectproximatedetonation, 23), (WaterImpact, 24), (AirBurst, 25), (Killwithfragmenttype1, 26), (Killwithfragmenttype2, 27), (Killwithfragmenttype3, 28), (Killwithfragmenttype1afterflyoutfailure, 29), (Killwithfragmenttype2afterflyoutfailure, 30), (Missduetoflyoutfailure, 31), (Missduetoendgamefailure, 32), (Missduetoflyoutandendgamefailure, 33)]);
wire_enum!(EEAttributeStateIndicator, 1, HeartbeatUpdate, [(HeartbeatUpdate, 0), (ChangedData, 1), (HasCeased, 2)]);
wire_enum!(EmitterName, 2, _12456X, [(_12456X, 2), (_1L117, 3), (_1L121E, 4), (_1L250, 5), (_1L220U, 6), (_1L1221E, 7), (_1RL257, 9), (_1RL138, 10), (_1RL257Jammer, 11), (_5N20, 12), (_5H62B, 13), (_5P10, 14), (_5P10E, 15), (_5P1001, 16), (_5P1001E, 17), (_5P1002, 18), (_5P1002E, 19), (_5P1003, 20), (_5P1003E, 21), (_5P10EMOD, 22), (_621A3, 25), (_860F1AL101, 40), (_9B1103M2, 42), (_1226DECCAMIL, 45), (_9B1348, 46), (_3KM6, 47), (_9KR400, 48), (_50N6A, 49), (_55G61, 50), (_59N6, 55), (_5N69, 57), (_67N6, 60), (_76T6, 63), (_77T6ABM, 64), (_80K6, 65), (_91N6A, 66), (_96L6E, 70), (_96L6TsP, 75), (_9C18M3, 76), (_9C36M, 77), (_9GR400, 80), (_9GR400A, 81), (_9GR600, 90), (_9GR606, 91), (_9LV100, 125), (_9LV200TA, 135), (_9LV200TV, 180), (_9LV200TT, 181), (_9LV200MKIII, 183), (_9LV326, 185), (_9M96E2Seeker, 190), (_9S15M2, 195), (_9S19M2, 196), (_9S19ME, 197), (_9S32M, 198), (_9S32ME, 199), (_9S36E, 200), (_9S112, 215), (A310Z, 225), (A325A, 270), (A346Z, 315), (A353B, 360), (A372A, 405), (A372B, 450), (A372C, 495), (A377A, 540), (A377B, 585), (A380Z, 630), (A381Z, 675), (A398Z, 720), (A403Z, 765), (A409A, 810), (A418A, 855), (A419Z, 900), (A429Z, 945), (A432Z, 990), (A434Z, 1035), (AA6CAcrid, 1070), (AA7CApex, 1073), (A401A, 1080), (AA10A, 1081), (AA10CAlamoC, 1082), (AA13ArrowSeeker, 1085), (AAM4BMH, 1090), (AA300, 1094), (AA12Seeker, 1095), (AD4A, 1096), (ADES, 1097), (ADS4LRSR, 1098), (ACR430, 1099), (Agave, 1100), (ACSOPRIE, 1101), (ABD2000, 1102), (ADACMK1, 1110), (ADACMK2, 1111), (ADAR, 1113), (ADOUR, 1115), (AGAT9B1348, 1117), (AdrosKT01AV, 1118), (Agat9E420, 1120), (AGM158JASSMSAR, 1122), (AGM88HARMMMW, 1123), (AGRION15, 1125), (AHV7, 1130), (AHV17, 1150), (AIMK23, 1170), (AIDAII, 1215), (AIM120A, 1216), (AIM7MSparrow, 1218), (_1L271, 1230), (ALA51, 1240), (AlbatrosMK2, 1260), (ALT50, 1263), (ALTAIR, 1264), (AMAPS717, 1265), (AMES13MK1, 1268), (WGU16B, 1270), (_1L133BoxSpring, 1280), (_1L133BoxSpringB, 1282), (AMDR3D, 1288), (ANASPS502, 1305), (Anemone, 1306), (ANRITSUElectricAR30A, 1350), (AntilopeV, 1395), (ANAAQ24, 1397), (ANADM160, 1398), (AN_ALE50, 1400), (AN_ALQ76, 1410), (AN_ALQ99, 1440), (AN_ALQ99Band4, 1441), (AN_ALQ99LBT, 1442), (AN_ALQ100, 1485), (AN_ALQ101, 1530), (AN_ALQ119, 1575), (AN_ALQ122, 1585), (AN_ALQ126A, 1620), (AN_ALQ128, 1621), (AN_ALQ126B, 1622), (AN_ALQ131, 1626), (AN_ALQ131BlkII, 1627), (AN_ALQ135CD, 1628), (AN_ALQ144A3, 1630), (AN_ALQ153, 1632), (AN_ALQ157Jammer, 1633), (AN_ALQ155, 1634), (AN_ALQ156, 1635), (AN_ALQ161A, 1636), (AN_ALQ161, 1637), (AN_ALQ162, 1638), (AN_ALQ164, 1639), (AN_ALQ165, 1640), (AN_ALQ187Jammer, 1641), (AN_ALQ167, 1642), (AN_ALQ1721, 1643), (AN_ALQ1722, 1644), (AN_ALQ1723, 1645), (AN_ALQ176, 1646), (AN_ALQ178, 1647), (AN_ALQ184, 1648), (AN_ALQ1849, 1649), (AN_ALQ188, 1650), (AN_ALQ214, 1651), (AN_ALR56, 1652), (AN_ALQ221, 1653), (AN_ALR69, 1654), (AN_ALQ211, 1655), (AN_ALT16A, 1656), (AN_ALQ173, 1657), (AN_ALT28, 1658), (AN_ALR66BJammer, 1659), (AN_ALT32A, 1660), (AN_ALQ196, 1661), (ALQ249NextGenerationJammer, 1662), (AN_ALQ2401Jammer, 1663), (AN_ALR66BJammer2, 1664), (AN_APD10, 1665), (AN_ALQ213, 1670), (ALQ214A45Jammer, 1672), (AN_ALQ218, 1680), (ANAPG50, 1700), (ANAPG53, 1710), (ANAPG59, 1755), (ANAPG63, 1800), (ANAPG631, 1805), (ANAPG632, 1807), (ANAPG633, 1809), (ANAPG65, 1845), (ANAPG66, 1870), (ANAPG66V, 1871), (ANAPG66V2, 1872), (ANAPG67, 1880), (ANAPG68, 1890), (ANAPG689, 1895), (ANAPG70, 1935), (ANAPG71, 1940), (ANAPG73, 1945), (ANAPG77, 1960), (ANAPG78, 1970), (ANAPG79, 1971), (ANAPG80, 1972), (ANAPG81, 1974), (ANAPG821, 1975), (ANAPG83, 1976), (ANAPG502, 1980), (ANAPN1, 2025), (ANAPN22, 2070), (ANAPN59, 2115), (ANAPN69, 2160), (ANAPN81, 2205), (ANAPN102, 2220), (ANAPN117, 2250), (ANAPN118, 2295), (ANAPN122, 2320), (ANAPN130, 2340), (ANAPN131, 2385), (ANAPN133, 2430), (ANAPN134, 2475), (ANAPN141, 2476), (ANAPN147, 2520), (ANAPN150, 2565), (ANAPN153, 2610), (ANAPN154, 2655), (ANAPN155, 2700), (ANAPN159, 2745), (ANAPN177, 2746), (ANAPN179, 2747), (ANAPN169, 2748), (ANAPN182, 2790), (ANAPN187, 2835), (ANAPN190, 2880), (ANAPN194, 2925), (ANAPN195, 2970), (ANAPN198, 3015), (ANAPN200, 3060), (ANAPN202, 3105), (ANAPN215, 3106), (ANAPN209, 3120), (ANAPN209D, 3121), (ANAPN209A, 3122), (ANAPN215_2, 3148), (ANAPN217, 3150), (ANAPN218, 3152), (ANAPN224, 3153), (ANAPN227, 3154), (ANAPN230, 3155), (ANAPN232, 3156), (ANAPN237A, 3157), (ANAPN234, 3158), (ANAPN235, 3159), (ANAPN238, 3160), (ANAPN222, 3161), (ANAPN239, 3162), (ANAPN241, 3164), (ANAPN242, 3166), (ANAPN243, 3170), (ANAPN506, 3195), (ANAPQ72, 3240), (ANAPQ99, 3285), (ANAPQ100, 3330), (ANAPQ102, 3375), (ANAPQ107, 3376), (ANAPQ109, 3420), (ANAPQ113, 3465), (ANAPQ120, 3510), (ANAPQ122, 3512), (ANAPQ126, 3555), (ANAPQ128, 3600), (ANAPQ129, 3645), (ANAPQ148, 3690), (ANAPQ150A, 3700), (ANAPQ153, 3735), (ANAPQ155, 3770), (ANAPQ159, 3780), (ANAPQ164, 3785), (ANAPQ166, 3788), (ANAPQ170, 3790), (ANAPQ174, 3791), (ANAPQ180, 3794), (ANAPQ181, 3795), (ANAPQ186, 3800), (ANAPS15J, 3810), (ANAPS162, 3813), (ANAPS31, 3820), (ANAPS42, 3825), (ANAPS80, 3870), (ANAPS88, 3915), (ANAPS88A, 3916), (ANAPS94, 3920), (ANAPS96, 3922), (ANAPS113, 3958), (ANAPS115, 3960), (ANAPS116, 4005), (ANAPS120, 4050), (ANAPS121, 4095), (ANAPS124, 4140), (ANAPS125, 4185), (ANAPS127, 4190), (ANAPS128, 4230), (ANAPS130, 4275), (ANAPS133, 4320), (ANAPS134, 4365), (ANAPS137, 4410), (ANAPS1375, 4413), (ANAPS137B, 4415), (ANAPS137B5, 4420), (ANAPS137D5Elta, 4425), (ANAPS138, 4455), (ANAPS139, 4460), (ANAPS143, 4464), (ANAPS1431, 4465), (ANAPS143B, 4466), (ANAPS1433, 4467), (ANAPS143B3, 4468), (ANAPS153, 4475), (ANAPS154, 4476), (ANAPS150, 4480), (ANAPS145, 4482), (ANAPS147, 4485), (ANAPS149, 4486), (ANAPS503, 4489), (ANAPS504, 4490), (ANAPS705, 4491), (ANAPW22, 4500), (ANAPW23, 4545), (ANAPX6, 4590), (ANAPX7, 4635), (ANAPX39, 4680), (ANAPX64, 4681), (ANAPX72, 4725), (ANAPX76, 4770), (ANAPX78, 4815), (ANAPX100, 4816), (ANAPX101, 4860), (ANAPX113AIFF, 4870), (ANAPY1, 4900), (ANAPY2, 4905), (ANAPY3, 4950), (ANAPY7, 4952), (ANAPY8, 4953), (ANAPY9, 4954), (ANAPY10, 4955), (ANARN21, 4995), (ANARN52, 5040), (ANARN84, 5085), (ANARN118, 5130), (ANARN153V, 5131), (ANARN153, 5165), (ANARW73, 5175), (ANASB1, 5220), (ANASG21, 5265), (ANASN137, 5266), (ANASN128, 5270), (ANASQ108, 5280), (ANASQ239, 5285), (ANAST502, 5290), (ANAVQ55, 5300), (ANAWG9, 5310), (ANBRN1, 5320), (ANBPS5, 5325), (ANBPS9, 5355), (ANBPS15, 5400), (ANBPS15H, 5401), (ANBPS15J, 5402), (ANBPS16, 5405), (ANBPS162, 5406), (ANCPN4, 5410), (ANCPN18, 5415), (ANCRM30, 5420), (ANDPW23, 5430), (ANDSQ26PhoenixMH, 5445), (ANDSQ28HarpoonMH, 5490), (ANFPN1, 5491), (ANFPN28, 5493), (ANFPN33, 5494), (ANFPN40, 5495), (ANFPN62, 5500), (ANFPN66, 5502), (ANFPS8, 5503), (ANFPN67, 5504), (ANFPS16, 5505), (ANFPS5, 5506), (ANFPS18, 5507), (ANFPS89, 5508), (ANFPS49, 5509), (ANFPS117, 5510), (ANFPS85, 5511), (ANFPS88, 5512), (ANFPS113, 5513), (ANFPS115, 5514), (ANFPS20R, 5515), (ANFPS132, 5516), (ANFPS77, 5520), (ANFPS41, 5521), (ANFPS100A, 5522), (ANFPS103, 5525), (ANFPS108, 5526), (ANGPN12, 5527), (ANFPS124, 5528), (ANFPS129, 5529), (ANGPX6, 5530), (ANGPX8, 5535), (ANGRN12, 5537), (ANMPN14K, 5538), (ANMPN14, 5539), (ANMPQ10, 5540), (ANMPN17, 5541), (ANMPQ3339465761ILL, 5545), (ANMPQ34485562TA, 5550), (ANMPQ49, 5551), (ANMPQ3550TA, 5555), (ANMPQ50C, 5556), (ANMPQ3751TT, 5560), (ANMPQ43, 5565), (ANMPQ50, 5567), (ANMPQ53, 5570), (ANMPQ63, 5571), (ANMPQ64, 5575), (ANSLQ32, 5576), (ANMPQ65, 5577), (ANSLQ324, 5578), (ANSLQ32A, 5579), (ANSPG34, 5580), (ANMSQ104, 5582), (ANMPS36, 5583), (ANSLQ503, 5584), (ANSPG48MK25MOD3, 5620), (ANSPG50, 5625), (ANSPG51, 5670), (ANPPQ2, 5690), (ANPPS15, 5700), (ANPPS5, 5705), (ANPPS5D, 5710), (ANSPG51CWITI, 5715), (ANSPG51FC, 5760), (ANSPG51CD, 5761), (ANSPG52, 5805), (ANSPG53, 5850), (ANSPG55B, 5895), (ANSPG60, 5940), (ANSPG62, 5985), (ANSPG503, 5995), (ANSPN4, 6015), (ANSPN11, 6025), (ANSPN35, 6030), (ANSPN41, 6050), (ANSPN43, 6075), (ANSPN43A, 6076), (ANSPN43C, 6078), (ANSPN46, 6085), (ANSPQ2, 6120), (ANSPQ5A, 6155), (ANSPQ9A, 6165), (ANSPQ9B, 6166), (ANSPQ34, 6190), (ANSPS4, 6210), (ANSPS5, 6255), (ANSPS5C, 6300), (ANSPS6, 6345), (ANSPS10, 6390), (ANSPS21, 6435), (ANSPS28, 6480), (ANSPS37, 6525), (ANSPS39A, 6570), (ANSPS40, 6615), (ANSPS41, 6660), (ANSPS48, 6705), (ANSPS48C, 6750), (ANSPS48E, 6752), (ANSPS49, 6795), (ANSPS491, 6796), (ANSPS492, 6797), (ANSPS493, 6798), (ANSPS494, 6799), (ANSPS495, 6800), (ANSPS496, 6801), (ANSPS497, 6802), (ANSPS498, 6803), (ANSPS49A1, 6804), (ANSPS52, 6840), (ANSPS53, 6885), (ANSPS55, 6930), (ANSPS52C, 6945), (ANSPS55CS, 6970), (ANSPS55SS, 6975), (ANSPS58, 7020), (ANSPS58C, 7025), (ANSPS59, 7065), (ANSPS64, 7110), (ANSPS649, 7119), (SPS6412, 7120), (ANSPS65, 7155), (ANSPS66, 7175), (ANSPS67, 7200), (ANSPS73_1, 7201), (ANSPS69, 7210), (ANSPS73_2, 7215), (ANSPS74, 7216), (ANSPS88, 7225), (ANSPS501, 7226), (ANSPS505, 7230), (ANSPY1, 7245), (ANSPY1A, 7250), (ANSPY1B_1, 7252), (ANSPY1B_2, 7253), (ANSPY1D_1, 7260), (ANSPY1D_2, 7261), (ANSPY1F, 7265), (ANSPY3, 7266), (ANTPN12, 7267), (ANSPY4, 7268), (ANTLQ32ARMDecoy, 7269), (ANTPN17, 7270), (ANTPN8, 7271), (ANTPN22, 7272), (ANTLQ17A, 7273), (ANTMS1, 7274), (ANTPN24, 7275), (ANTPN25, 7276), (ANTMS2, 7277), (ANTPN19, 7278), (ANTPN31, 7279), (ANTPQ18, 7280), (ANSPY6, 7281), (ANTPQ36, 7295), (ANTPQ37, 7300), (ANTPQ38, 7301), (ANTPQ39, 7302), (ANTPQ47, 7303), (ANTPS43, 7305), (ANTPS43E, 7310), (ANTPQ48, 7311), (ANTPQ49, 7312), (ANTPQ46A, 7313), (ANTPS34, 7314), (ANTPS59, 7315), (ANTPS44, 7316), (ANTPQ50, 7317), (ANTPS63, 7320), (ANTPS65, 7321), (ANTPS701, 7322), (ANTPS63SS, 7323), (ANTPS73, 7324), (ANTPS75, 7325), (ANTPS77, 7326), (ANTPS78, 7327), (ANTPS79, 7328), (ANTPS703, 7329), (ANTPX467, 7330), (ANTPS80, 7331), (ANTPY2, 7333), (ANTSQ288, 7334), (ANULQ6A, 7335), (ANULQ19, 7340), (ANULQ21, 7345), (ANUPN25, 7380), (ANUPS1, 7425), (ANUPS2, 7426), (ANUPS3, 7427), (ANUPX1, 7470), (ANUPX5, 7515), (ANUPX11, 7560), (ANUPX12, 7605), (ANUPX17, 7650), (ANUPX23, 7695), (ANUSQ1133, 7700), (ANVPS2, 7740), (ANPLM3, 7750), (ANPLM3A, 7751), (ANPLM4, 7752), (ANZPY1, 7753), (ANZPY2MPRTIP, 7754), (ANZPY3, 7755), (ANZPY8, 7760), (AORL1AS, 7761), (AORL85KTKMTA, 7762), (APAR, 7765), (Aparna, 7770), (APECSII, 7780), (ApelcoAD77, 7785), (APG71, 7830), (APN148, 7875), (APN227, 7920), (APQ113, 7965), (APQ120, 8010), (APQ148, 8055), (APS504V3, 8100), (AQUITAINEII, 8102), (AR1, 8103), (AR3D, 8105), (PlesseyAR5, 8112), (AR15, 8113), (AR152, 8114), (AR320, 8115), (AR325, 8118), (AR327, 8120), (Arbalet52, 8121), (ARBB31, 8122), (ARBB33, 8123), (ARIES, 8126), (AriesNav, 8127), (AriesCS, 8128), (ARGS14E, 8134), (ARGS31, 8135), (ARGUS, 8140), (ARM31, 8145), (ARECIBO, 8150), (ARED, 8160), (ARI5954, 8190), (ARI5955, 8235), (ARI5979, 8280), (ARGSN31, 8281), (ARGOS10, 8282), (ARGOS800, 8283), (ARI5983, 8284), (ARI5991, 8285), (ARI5995, 8290), (ARINC564BNDXKINGRDR1E, 8325), (ARINC700BNDXKINGRDR1E, 8370), (ARK1, 8375), (ARLMMTI, 8378), (ARMOR, 8379), (ARSR3, 8380), (ARS400, 8381), (ARSR1, 8382), (ARSR4, 8384), (ARSR18, 8390), (ARTHUR, 8395), (ARTHURMODB, 8400), (ARTHURMODC, 8405), (ARTISAN3D, 8410), (AS2Kipper, 8415), (AS2KipperMH, 8460), (AS3YJ83KmmWMH, 8470), (AS_34KormoranSeeker, 8480), (AS4Kitchen, 8505), (AS4KitchenMH, 8550), (AS5KeltMH, 8595), (AS6KingfishMH, 8640), (AS7Kerry, 8685), (AS7KerryMG, 8730), (AS15KENTaltimeter, 8735), (AS17AKryptonSeeker, 8736), (AS17BKryptonSeeker, 8737), (AS901, 8750), (AS901A, 8751), (ASARS2, 8755), (ASDEKDD, 8756), (ASLESHA, 8757), (ASMGCS, 8758), (ASMI18X, 8759), (AspideAAMSAMILL, 8760), (ASMI3, 8761), (AselsanMAR, 8762), (ASR2000, 8771), (ASR4, 8772), (ASR4D, 8773), (ASRO, 8775), (ASR12_1, 8776), (ASR22AL, 8778), (ASR3, 8779), (ASR5, 8780), (ASR7, 8782), (ASR8, 8785), (ASR9, 8790), (ASR9000, 8791), (ASTI, 8792), (ASR11DASR, 8793), (ASR12_2, 8795), (RaytheonASR10SS, 8812), (ASR23SS, 8816), (Arabel, 8818), (ASTRE, 8819), (AT2SwatterMG, 8820), (_9K114ShturmMG, 8824), (ASTOR, 8825), (ASTRARCI, 8826), (ATCR22, 8830), (ATCR22M, 8831), (ATCR2T, 8832), (ATCR33, 8840), (ATCR33KM, 8845), (ATCR33S, 8846), (ATCR3T, 8847), (ATCR44, 8848), (ATCR44K, 8849), (Argos73, 8850), (ATCR44MS, 8851), (ATCR4T, 8852), (AtlasElektronkTRSN, 8865), (ATLAS8600X, 8866), (Atlas9600M, 8867), (ATLAS9600X, 8868), (ATLAS9600S, 8869), (ATLAS9740VTS, 8870), (ATLASS, 8871), (ATR500C, 8880), (AVG65, 8910), (AVH7, 8955), (AVIACM, 8980), (AVIAD, 8985), (Aviaconversia, 8990), (AviaconversiaII, 8993), (AviaconversiaIII, 8995), (AVQ20, 9000), (AVQ21, 9005), (AVQ30X, 9045), (AVQ50, 9075), (AVQ70, 9090), (AWS5, 9135), (AWS6, 9180), (AWS6B300, 9185), (B597Z, 9200), (B636Z, 9205), (BackBoard, 9215), (BackNetAB, 9225), (BackTrap, 9270), (BAESystemsRT1805APN, 9280), (BAESDASS2000Jammer, 9281), (BalanceBeam, 9285), (BALTIKAB, 9300), (BALTYK, 9310), (BallEnd, 9315), (BallGun, 9360), (BALLPOINT, 9370), (BandStand, 9405), (BandStand3, 9406), (P3537, 9450), (BARAX, 9475), (BASIR110D, 9485), (BassTilt, 9495), (Badger, 9505), (BarracudaJammer, 9510), (BaykalCountermeasuresSuite, 9530), (Beacon, 9540), (BeanSticks, 9585), (BeeHind, 9630), (BellNipJammer, 9638), (BellPushJammer, 9639), (BellCrownA, 9640), (BellCrownB, 9642), (BellSquat, 9643), (BIGBACK, 9645), (BigBirdABC, 9659), (BigBirdD, 9660), (BigBirdDMod, 9661), (BigBirdE91N6E, 9662), (BigBulge, 9675), (BigBulgeA, 9720), (BigBulgeB, 9765), (BIGEYE, 9775), (SNAR10, 9780), (BIGHEADB, 9781), (BigMesh, 9810), (BigNet, 9855), (_9S15MT, 9885), (BillFold, 9900), (BLIGHTER400, 9903), (BlowpipeMG, 9905), (BLR, 9920), (BlueFox, 9930), (BlueKestrel, 9933), (BlueVixen, 9935), (BlueSilk, 9945), (BlueParrot, 9990), (BlueOrchid, 10035), (BMDJG8715, 10057), (BoatSail, 10080), (BORA550, 10090), (BoforsElectronic9LV331, 10125), (BoforsEricssonSeaGiraffe50HC, 10170), (BowlMesh, 10215), (BoxBrick, 10260), (BoxTrail, 10305), (BMKG300GJammingPod, 10308), (BMKG600JammingPod, 10310), (BMKG800JammingPod, 10312), (BMKG860186058606, 10315), (BPS11A, 10350), (BPS14, 10395), (BPS15A, 10440), (BR3440CAX57, 10450), (BR15TokyoKEIKI, 10485), (BrahMos, 10500), (BridgeMaster, 10510), (BridgeMasterEEPA, 10511), (BridgeMasterEATAandARPA, 10512), (BridgeMasterEnaval, 10513), (BrimstonemmWMH, 10520), (BreadBin, 10530), (Asr, 10540), (BT271, 10575), (BU304, 10595), (BX732, 10620), (BUKMB, 10630), (BuranD, 10642), (BUREVISNYK1, 10650), (BuzzStand, 10665), (C5AMultiModeRadar, 10710), (C802AL, 10711), (CAESAR, 10740), (Caiman, 10755), (CakeStand, 10800), (CalypsoC61, 10845), (CalypsoC63, 10846), (CalypsoIi, 10890), (CalypsoIII, 10891), (CalypsoIV, 10892), (CardionCoastal, 10895), (CastorIi, 10935), (Castor2JTT, 10940), (CatHouse, 10980), (CDR431, 10985), (CEAFAR, 10987), (CEAMOUNT, 10988), (CEAFAR2L, 10989), (CEROS200, 10990), (CEROS200CWI, 10991), (CEATAC, 10992), (CEAOPS, 10993), (CerberusIII, 10994), (CHSSN6, 10995), (CerberusIV, 10996), (ChairBlackTT, 11000), (ChairBlackILL, 11010), (LEMZ96L6, 11020), (CheeseBrick, 11025), (CheeseCake, 11030), (LeninetzObzorMS, 11070), (Clamshell, 11115), (CLC1, 11117), (CLC2, 11118), (CLC3, 11119), (CLR155, 11120), (COASTWATCHER100, 11123), (CoastalGiraffe, 11125), (COBRA, 11130), (CobraShoe, 11133), (Colibri, 11137), (CollinsWXR300, 11155), (CollinsWXR700X, 11160), (CollinsTWR850, 11165), (CollinsDN101, 11205), (COMET1, 11230), (CONDORMK2, 11235), (ConsiliumSelesmarRTM25XIM, 11240), (ContravesSeaHunterMK4, 11250), (CornCan, 11260), (COSMOSKYMED1, 11265), (CR105RMCA, 11270), (CREWDuke2, 11280), (CREWDuke3, 11290), (CrossBird, 11295), (CrossDome, 11340), (CrossLegs, 11385), (CrossOut, 11430), (CrossSlot, 11475), (CrossSword, 11520), (CrossUp, 11565), (CrossSwordFC, 11610), (CrotaleAcquisitionTA, 11655), (CrotaleNGTA, 11660), (CrotaleTT, 11665), (CrotaleMGMissileSystem, 11700), (CS10TA, 11715), (CSFVaran, 11725), (CSSN4MH, 11735), (CSSC3CCAS1M1M2MH, 11745), (HY2BMH, 11748), (CSSC2BHY1AMH, 11790), (CSSN4Sardine, 11800), (CSSN8Saccade, 11810), (CurlStoneB, 11825), (CWS1, 11830), (CWS2, 11835), (CWS3, 11840), (Cygnus, 11860), (CylinderHead, 11880), (Cymbeline, 11902), (CyranoII, 11925), (CyranoIV, 11970), (CyranoIVM, 11975), (DA0100, 12010), (DA0500, 12015), (DA052, 12016), (DA_08, 12018), (Dawn, 12060), (DCR, 12090), (DeadDuck, 12105), (DECCA20V909, 12110), (DECCA20V90S, 12111), (DECCA45, 12150), (DECCA50, 12195), (DECCA71, 12196), (Decca72, 12197), (DECCA110, 12240), (DECCA170, 12285), (DECCAHF2, 12292), (DECCA202, 12330), (DECCAD202, 12375), (DECCA303, 12420), (DECCA535, 12430), (DECCA626, 12465), (DECCA629, 12510), (DECCA914, 12555), (DECCA916, 12600), (DECCA926, 12610), (DECCA1070A, 12615), (Decca1008, 12616), (DECCA1226Commercial, 12645), (DECCA1290, 12655), (DECCA1626, 12690), (DECCA2070, 12691), (Decca1630, 12694), (DECCA2459, 12735), (DECCAAWS1, 12780), (DECCAAWS2, 12782), (DECCAAWS4, 12785), (DECCAAWS42, 12787), (DECCAMAR, 12800), (DECCARM326, 12805), (DECCARM416, 12825), (DECCARM970BT, 12850), (DECCARM914, 12870), (DF21DSeeker, 12875), (DECCARM1690, 12915), (DECCA1690, 12916), (DECCASuper101MK3, 12960), (DISS1, 13005), (DISS7, 13006), (DISS013, 13007), (DISS15D, 13015), (DLD100A, 13020), (RapierTTDN181, 13050), (Rapier2000TT, 13055), (DogEar, 13095), (DogHouse, 13140), (DM3, 13141), (DM3B, 13142), (DM5, 13143), (Don2, 13185), (DonAB2Kay, 13230), (Donets, 13275), (Doppler90Series, 13280), (DownBeat, 13320), (DR582, 13360), (DRAA2A, 13365), (DRAA2B, 13410), (DRAA9A, 13415), (DRAA11A, 13420), (DRAC37B, 13450), (DRAC38, 13452), (DRAC39, 13455), (DRAC39A, 13456), (DRAC43A, 13460), (DRAC44A, 13465), (DragonEye, 13477), (DragonEye2, 13480), (DragonEye3, 13481), (DragonEye4, 13485), (DRBC30B, 13500), (DRBC31A, 13545), (DRBC31D, 13546), (DRBC32, 13585), (DRBC32A, 13590), (DRBC32D, 13635), (DRBC33A, 13680), (DRBI10, 13725), (DRBI23, 13770), (DRBJ11B, 13815), (DRBN30, 13860), (DRBN32, 13905), (DRBN34, 13915), (DRBR51, 13950), (DRBV20A, 13994), (DRBV20B, 13995), (DRBV21Mars05, 14020), (DRBV22, 14040), (DRBV23, 14041), (DRBV26C, 14085), (DRBV26D, 14086), (DRBV30, 14130), (DRBV31, 14131), (DRBV50, 14175), (DRBV51, 14220), (DRBV51A, 14265), (DRBV51B, 14310), (DRBV51C, 14355), (DropKick, 14400), (DRUA31, 14445), (DrumTilt, 14490), (DrumTiltA, 14535), (DrumTiltB, 14545), (DRUN30A, 14560), (Dumbo, 14580), (DWSR92, 14583), (DWSR93S, 14585), (EAGLE, 14586), (EAGLEMk1, 14587), (EAJPJammingPod, 14588), (EKCOE390, 14590), (ECR90, 14600), (ECR90Jammer, 14601), (EggCupAB, 14625), (EISCAT, 14640), (EKCOE120, 14660), (EKCO190, 14670), (Ekran1, 14677), (ELL8222, 14710), (ELL8240, 14713), (ELM2001B, 14715), (ELM2022, 14725), (ELM2032, 14726), (ELM2052, 14727), (ELM2055, 14728), (ELM2060, 14730), (ELM2075, 14735), (ELM2022U3, 14736), (ELM2080, 14737), (ELM2080S, 14738), (ELM2085, 14739), (ELM2106, 14740), (ELM2106NG, 14741), (ELM2125, 14742), (ELM2129, 14743), (ELM2150, 14744), (ELM2083, 14745), (ELM2084, 14746), (ELM2160V1, 14747), (ELM2084MMR, 14748), (ELM2112, 14749), (ELM2200, 14750), (ELM2133, 14751), (ELM2205, 14755), (ELM2207, 14760), (ELM2215, 14765), (ELM2216V, 14770), (ELM2216XH, 14772), (ELM2218S, 14775), (ELT361, 14776), (ELM2258, 14777), (ELT553, 14779), (ELT558, 14780), (ELT572, 14785), (ELT715, 14790), (EltaELM2022A, 14800), (ELTAELM2221GMSTGR, 14805), (ELM2228S3D, 14806), (ELM2705, 14807), (ELM2226, 14808), (ELM2228X, 14809), (ELTASIS, 14810), (ELM2238, 14811), (ELM2248, 14815), (ELM2288, 14820), (ELM2311, 14821), (ELM2026, 14822), (ELNA4007, 14830), (ELT318, 14831), (ELW2085, 14832), (ELT521, 14833), (ELW2090, 14835), (EnhancedMeteorDetectionRadarEMDR, 14845), (EMD2900, 14850), (EMPAR, 14851), (EndTray, 14895), (EQ36, 14896), (EricssonSLAR, 14897), (Erieye, 14898), (ESR1, 14900), (ESR220, 14901), (ESR380, 14902), (ESTEREL, 14903), (ET316, 14905), (ExocetType, 14935), (ExocetAL, 14936), (Exocet1, 14940), (Exocet1MH, 14985), (Exocet2, 15030), (EyeBowl, 15075), (EyeShield, 15120), (F332Z, 15140), (FalconClawTI, 15155), (FalconClawTT, 15156), (FALCON, 15160), (FALCONG, 15161), (FalconEye, 15163), (FanSongA, 15165), (FanSongBFTA, 15200), (FanSongBFTT, 15210), (FanSongCETA, 15220), (FanSongCETT, 15230), (FanSongCEMG, 15240), (FanSongBFFMG, 15255), (FanTail, 15300), (FAR2117, 15301), (FAR2827, 15302), (FAR2837S, 15303), (FAR3000, 15304), (FB7Radar, 15305), (FCR1401, 15310), (FCS212E, 15312), (FCS212G, 15313), (FCS221A, 15315), (FCS221C, 15317), (FCS222, 15318), (FCS231, 15319), (FCS3, 15320), (FinCurve, 15345), (FireCan, 15390), (FireDish, 15435), (FireDomeTA, 15470), (FireDomeTT, 15475), (FireDomeTI, 15480), (FireIron, 15525), (FireWheel, 15570), (FishBowl, 15615), (FK3, 15620), (FLAIR, 15650), (FlapLid, 15660), (_30N6E, 15661), (FlapTruck, 15705), (FlapWheel, 15750), (FlashDance, 15795), (FlashDanceM, 15800), (P15, 15840), (_35N6, 15842), (FlatScreen, 15885), (FlatSpin, 15930), (FlatTrackJammer, 15970), (FlatTwin, 15975), (FL400, 15980), (FL1800, 15985), (FL1800U, 15990), (FL1800S, 16000), (Fledermaus, 16020), (FLYCATCHER, 16030), (FLYCATCHERMK2, 16035), (FlyScreen, 16065), (FlyScreenAB, 16110), (FlyTrapB, 16155), (FM90, 16160), (FogLampMG, 16200), (FogLampTT, 16245), (FoilTwo, 16290), (FootBall, 16300), (FoxHunter, 16335), (FoxFireAL, 16380), (FoxFireILL, 16390), (FR151A, 16400), (FurunoFR1500FR1600, 16405), (FR1505DA, 16410), (FR1510DS, 16412), (FR2000, 16420), (Furuno2855W, 16421), (FregatMAE, 16422), (FregatN1, 16423), (FregatN2, 16424), (FrontDome, 16425), (FregatMAE5, 16426), (FrontDoor, 16470), (FrontPiece, 16515), (FurbymmWMH, 16520), (Furke, 16550), (Furke2, 16552), (Furke4, 16554), (Furuno, 16560), (Furuno1721, 16561), (Furuno1934C, 16564), (Furuno1715, 16565), (Furuno1730, 16580), (Furuno1731Mark3, 16581), (Furuno1832, 16585), (Furuno1835, 16587), (Furuno1932, 16590), (Furuno1935, 16596), (Furuno701, 16605), (Furuno1940, 16606), (Furuno7112, 16650), (FurunoFR2130S, 16652), (FurunoFAR2137S, 16654), (FurunoFAR28X7, 16655), (FurunoFAR3230S, 16658), (FR2110, 16660), (FR2115, 16662), (FR8062, 16663), (Furuno2125, 16670), (Furuno240, 16690), (Furuno2400, 16695), (FR801D, 16725), (Furuno8051, 16730), (FurunoDRS2D, 16732), (FurunoDRS4D, 16733), (FurunoDRS4A, 16734), (G030A, 16735), (FurunoDRS6AXClass, 16736), (DRS4W, 16737), (GA0100, 16740), (Gabbiano, 16750), (Gage, 16785), (Gaofen3, 16787), (GAOFEN12, 16789), (GAPGATE, 16790), (Gardenia, 16800), (GarminGMR1224, 16815), (GarminFantom24, 16820), (GarminGWX68WeatherRadar, 16825), (Garpin, 16830), (GateGuard, 16833), (GarpunBalE, 16835), (GBS1, 16840), (GCA2000, 16850), (Furuno18321921Series, 16858), (GEMINIDB, 16870), (GEMOlympus, 16871), (GEMSentinel, 16872), (GEMBX132, 16875), (GEMSC2050X, 16876), (GEMSeaEagle200N, 16877), (GenericInternalJammer, 16879), (MPDR12, 16880), (GENX, 16881), (GepardTT, 16884), (GERANF, 16888), (GERFAUT, 16890), (GFE1, 16895), (GIRAFFE, 16900), (GIRAFFE1X, 16903), (Giraffe40, 16905), (Giraffe50AT, 16908), (Giraffe75, 16912), (GinSlingTA, 16915), (GinSling, 16920), (GinSlingMG, 16925), (GoalKeeper, 16930), (GoldenDome, 16935), (GoldenHeart, 16940), (GoldenRock, 16942), (GPN22, 16945), (GPSJ10, 16946), (GPSJ25, 16947), (GPSJ40, 16948), (GPSJ50, 16949), (GRN9, 16950), (GRANK, 16951), (GraveStone, 16960), (GRAVES, 16963), (GreenStain, 16965), (GridBow, 17010), (GrifoF, 17016), (_9S32, 17025), (GRILLSCREEN, 17027), (Grom2, 17029), (GROUNDMASTER400, 17030), (GT4, 17031), (GRS440, 17032), (GUARDIAN, 17050), (Guardsman, 17055), (RPK2, 17070), (HRJZ7264AJammer, 17075), (H025, 17079), (HADR, 17080), (HairNet, 17100), (HalfPlateA, 17145), (HalfPlateB, 17190), (HARD, 17220), (Harpoon, 17225), (HatBox, 17230), (HawkScreech, 17235), (HayPole, 17250), (HayRick, 17255), (HeadLightA, 17280), (HeadLights, 17325), (HeadLightsC, 17370), (HeadLightsMGA, 17415), (HeadLightsMGB, 17460), (HeadLightsTT, 17505), (HeadNet, 17550), (HeartAcheB, 17572), (HellfiremmWMH, 17590), (HenEgg, 17595), (HenHouse, 17640), (HenNest, 17685), (HenRoost, 17730), (Herakles, 17732), (HF2MG, 17735), (HGR105, 17745), (HighBrick, 17775), (HighFix, 17820), (HighGuard, 17842), (HighLarkTI, 17865), (HighLark1, 17910), (HighLark2, 17955), (HighLark4, 18000), (HighLune, 18045), (HighPoleAB, 18090), (HighScoop, 18135), (_9S19MT, 18150), (HighSieve, 18180), (HillBlock, 18185), (HimalayasCountermeasuresSuite, 18189), (HG9550, 18190), (HJ6374, 18193), (HLDRADAR900, 18194), (HLJQ520, 18195), (HN503, 18200), (HNC03M, 18201), (HomeTalk, 18225), (HornSpoon, 18270), (HotBrick, 18280), (HotFlash, 18315), (HotFlash2, 18316), (IHS6, 18318), (IRL144MHotShotTA, 18320), (IRL144MHotShotTT, 18325), (IRL144MHotShotMG, 18330), (HPS106, 18331), (HPS104, 18332), (HQ9MH, 18339), (HSR1128, 18340), (HT233, 18348), (HQ61, 18350), (HRJS, 18351), (IDerbyER, 18352), (IBIS80, 18353), (IBIS150, 18355), (IBIS200, 18357), (IFFMKXIIAIMSUPX29, 18360), (Janet, 18400), (IFFMKXV, 18405), (IFFINT, 18406), (JackKnife, 18407), (IFFTRSP, 18408), (JMUSICElbitSystemsJammer, 18409), (JavelinMG, 18410), (JALQ8, 18445), (JFPS7, 18449), (JayBird, 18450), (JFPS3, 18451), (JH10, 18452), (JMPQP7, 18453), (JL7, 18454), (JL10B, 18455), (JMA1576, 18456), (JRCJMA92526CA, 18457), (JLP40, 18458), (JRCJMR9200SeriesX, 18459), (JRCNMD401, 18460), (JRCJRM310MK2, 18461), (JMA1596, 18462), (JMA7000, 18464), (JRCJMA7700, 18465), (JMA5320, 18466), (JRCJMR92106XC, 18467), (JERS1, 18468), (JINDALEE, 18469), (JRCJMA9900series, 18470), (JLP40D, 18471), (JRCJMA5300series, 18475), (Jupiter, 18495), (JupiterII, 18540), (JY8, 18550), (JY8A, 18551), (JY9, 18555), (JY9Modified, 18556), (JY11EW, 18557), (JY14, 18560), (JY14A, 18561), (JY16, 18565), (JY24, 18570), (JAPG1, 18571), (JAPG2, 18572), (JY29, 18575), (JYL1, 18578), (JYL6, 18580), (JYL6A, 18582), (JZQF612, 18583), (K376Z, 18585), (K77M, 18586), (Kaige, 18600), (KALKAN, 18610), (KBPAfganit, 18611), (KALKANII, 18615), (KelvinHughes2A, 18630), (KelvinHughes149, 18675), (Karpaty, 18700), (Kashtan3JammingSystem, 18710), (KelvinHughestype1006, 18720), (KelvinHughestype1007, 18765), (KelvinHughesType1007FBand, 18766), (KelvinHughes2007FBand, 18767), (KelvinHughes2007IBand, 18768), (KHNucleus5000, 18770), (KHMANTA, 18774), (KHNUCLEUS26000, 18775), (KHNUCLEUS35000, 18776), (KHNUCLEUS36000A, 18777), (KHFamily, 18780), (KelvinHughes6000A, 18781), (Kh38MAEMH, 18782), (KG8605A, 18784), (KH902M, 18785), (KHOROMK, 18786), (KHIBINY, 18787), (KG300E, 18789), (KHSharpEye, 18790), (KHSharpEyeB, 18791), (KHSharpEyeC, 18792), (KH1700, 18795), (KingPin, 18797), (KG300, 18805), (KiteScreech, 18810), (KiteScreechA, 18855), (KiteScreechB, 18900), (KLC3B, 18930), (KJ500NanjingRadar, 18944), (Kivach, 18945), (KJ500Jammer, 18946), (KLC1, 18947), (KLJ1, 18948), (KLJ3, 18950), (KLJ4, 18951), (KLJ4B, 18952), (KLJ5, 18955), (KLJ7, 18960), (KLJ7B, 18961), (KLJ7A, 18962), (KnifeRest, 18990), (P10, 19035), (KNIFERESTC, 19037), (KodenMD3730, 19039), (KJ2000, 19040), (KODENMDC900, 19041), (Koopol, 19042), (KOPYOI, 19045), (KR75, 19050), (KRONOS, 19051), (KREDO1E, 19052), (Krasukha2, 19053), (KRONOSGRANDNAVAL, 19054), (KRM66E, 19060), (KSASRN, 19080), (KSATSR, 19125), (KS1APHASEDARRAY, 19127), (KS418, 19129), (KS418E, 19130), (KZ100, 19131), (KZ900, 19132), (L175V, 19140), (L3705PresidentSJammer, 19142), (L415, 19143), (L88, 19145), (LAADS, 19150), (LandFall, 19170), (LandRollMG, 19215), (LandRollTA, 19260), (LandRollTT, 19305), (LAZUR, 19306), (Model791A, 19307), (LAP3000, 19309), (LC150, 19310), (LEER3, 19320), (LegDrive, 19330), (LeninetzV004, 19340), (Leningraf, 19350), (LIANA, 19370), (LightBulb, 19395), (LIRAA10, 19396), (LIROD8, 19397), (LIRODMKII, 19398), (LLX05K, 19399), (LMTNRAI6A, 19400), (LN55, 19440), (Ln66, 19485), (Liman, 19500), (Liman2, 19505), (LockheedVigilance, 19520), (LongBow, 19530), (LongBrick, 19575), (LongBull, 19620), (LongEye, 19665), (LongHead, 19710), (LongTalk, 19755), (LongTrack, 19800), (LongTrough, 19845), (LookTwo, 19890), (LOPAR, 19920), (LORAN, 19935), (LowBlowTA, 19950), (LowBlowTT, 19955), (LowBlowMG, 19960), (LowJackTT, 19970), (LowJackMG, 19971), (LowSieve, 19980), (LowTrough, 20025), (LR66, 20029), (LRA900, 20030), (TRS2050, 20040), (LW01, 20060), (LW08, 20070), (M1983FCR, 20090), (M2240, 20115), (M44, 20160), (M401Z, 20205), (M585Z, 20250), (M588Z, 20295), (MA1IFFPortion, 20340), (MADHACK, 20350), (MARELD, 20360), (MAType909, 20385), (MARCS152, 20420), (Marconi1810, 20430), (MarconiCanadaHC75, 20475), (MarconiS713, 20495), (MarconiS1802, 20520), (MarconiS247, 20530), (MarconiS810, 20565), (MarconiSA10, 20585), (MARCONIST801, 20589), (MarconiST805, 20590), (Marconitype967, 20610), (Marconitype968, 20655), (Marconitype992, 20700), (Marconisignaaltype1022, 20745), (Marconisignaaltype910, 20790), (Marconisignaaltype911, 20835), (Marconisignaaltype992R, 20880), (MARTELLO743D, 20890), (MARTELLOS723A, 20895), (MASTERA, 20897), (MBDAFLAADSMJammer, 20898), (MELCO3, 20915), (MELODI, 20917), (MERLIN, 20918), (Meraj4, 20919), (NorthropGrummanMESA, 20920), (MeshBrick, 20925), (METEOR1500S, 20927), (METEOR200, 20929), (METEOR50DX, 20930), (METEOR300, 20931), (MeteorBVRAAM, 20933), (MFR, 20935), (MFSR210045, 20940), (MICAMH, 20942), (MICARF, 20943), (MineralME, 20945), (MirageILL, 20950), (MiysisJammer, 20955), (MK15, 20969), (MK15CIWS, 20970), (MK23, 21015), (MK23TAS, 21060), (MK25, 21105), (Mk25Mod3, 21110), (Mk25Mod7, 21130), (MK35M2, 21150), (MK92, 21195), (MK92CAS, 21240), (MK92STIR, 21285), (MK95, 21330), (MKS818, 21332), (MLA1, 21340), (MMAPQ706, 21359), (MM950, 21360), (MMAPS705, 21375), (MMAPS784, 21390), (MMSPG73, 21419), (MMSPG74, 21420), (MMSPG75, 21465), (MMSPN703, 21490), (MMSPN730, 21492), (MMSPN753B, 21495), (MMSPQ3, 21500), (MMSPS702, 21510), (MMSPS768, 21555), (MMSPS774, 21600), (MMSPS791, 21610), (MMSPS794, 21615), (MMSPS798, 21620), (MMSR, 21623), (Model17C, 21625), (Moon4, 21645), (MoonPie, 21646), (MOONCONE, 21647), (MoonRack, 21648), (MOONFACE, 21649), (MMRS, 21650), (Model360, 21655), (Model378, 21660), (Model970, 21661), (Model974, 21665), (MONOLITB, 21672), (Monument, 21675), (Mouse, 21680), (MP411ESM, 21682), (MPDR18S, 21685), (MPDR18X, 21690), (MPDR45E, 21692), (MR2311, 21693), (MPR, 21695), (MR2314, 21696), (MPS1, 21697), (MR36B, 21698), (MR231MOD, 21699), (MR1600, 21700), (MRR, 21701), (MR35, 21702), (MR36, 21703), (MRL1, 21704), (MRL4, 21705), (MRL5, 21706), (MSAM, 21707), (MR36A, 21708), (MSTAR, 21709), (MT305X, 21710), (MR10M1E, 21711), (MR90, 21712), (MRK411, 21715), (MR320MTopazV, 21716), (MSP418K, 21720), (MuffCob, 21735), (Mushroom, 21780), (Mushroom1, 21825), (Mushroom2, 21870), (Mushroom3, 21871), (N23, 21872), (N011MBars, 21873), (N011MBarsB, 21874), (N011MBarsC, 21875), (N011MBarsR, 21876), (N035IrbisE, 21877), (N036Byelka, 21878), (N25, 21879), (N920Z, 21880), (N001V, 21881), (NACOSRADARPILOTPlatinum, 21884), (NampoB, 21885), (NAGIRA, 21886), (NanjingB, 21890), (NanjingC, 21895), (Nayada, 21915), (NAYADA5M, 21917), (NAYADA5PV, 21918), (NEBOM, 21919), (NeboSVU, 21920), (Neptun, 21960), (Nettuno4100, 21965), (NIKEHERCULESMTR, 21970), (NIKETT, 21980), (NorthropGrummanMFEWJammer, 21981), (NORINCO3D, 21982), (NJ81E, 21983), (Normandie, 21984), (NRJ6A, 21985), (NOSTRADAMUS, 21986), (NPG1240, 21987), (NPG1460, 21988), (NPG434, 21989), (NPG630, 21990), (NPM510, 21991), (NutCan, 21992), (NPVegaLiana, 21995), (NovellaNV1_70, 22000), (NRBA50, 22005), (NRBA51, 22050), (NRBF20A, 22095), (NRJ5, 22110), (NS9005, 22115), (NS100Series, 22125), (NUR31, 22127), (NWS3, 22130), (NysaB, 22140), (O524A, 22185), (O580B, 22230), (O625Z, 22275), (O626Z, 22320), (OceanMaster, 22335), (OceanMaster400, 22340), (OddGroup, 22345), (OddLot, 22365), (OddPair, 22410), (OddRods, 22411), (Oka, 22455), (OFOGH, 22460), (OFOGH3, 22463), (OKEAN, 22500), (OKEANA, 22505), (OKINXE12C, 22545), (OKO, 22560), (OMEGA, 22590), (OmeraORB32, 22635), (OMUL, 22640), (OneEye, 22680), (OP28, 22690), (OPRL4, 22695), (OPRM71, 22696), (OPS9, 22697), (OPS11BC, 22700), (OPS12, 22701), (OPS14B, 22705), (OPS14C, 22706), (OPS16B, 22725), (OPS18, 22730), (OPS19, 22732), (OPS20, 22735), (OPS22, 22736), (OPS24, 22737), (OPS28, 22740), (OPS28C, 22745), (OPS39, 22750), (OPTIMA3_2, 22760), (OR2, 22770), (ORB31D, 22800), (ORB31S, 22810), (ORB32, 22815), (ORB42, 22830), (OrionRtn10X, 22860), (SurfaceWave, 22890), (OtomatMK1, 22900), (OtomatMKIITeseo, 22905), (OtomatSeriesAL, 22906), (OwlScreech, 22950), (P360Z, 22955), (P14, 22956), (P180U, 22957), (P182, 22959), (PA1660, 22960), (P18M, 22961), (P190U, 22962), (P30, 22963), (P18MOD, 22964), (P35M, 22965), (PAGE, 22970), (PaintBox, 22977), (PalmFrond, 22995), (ModifiedPaintBox, 22998), (PalmFrondAB, 23040), (Pandora, 23041), (PALSAR2, 23042), (PantsirSMTAR, 23043), (PAR2, 23045), (PAR2000, 23050), (PAR2090C, 23053), (PAR80, 23055), (PatHandTT, 23085), (PatHandMG, 23095), (PATRIOT, 23100), (PattyCake, 23130), (PawnCake, 23175), (PBR4Rubin, 23220), (PCS514, 23240), (PeaSticks, 23265), (PechoraSC, 23295), (PeelCone, 23310), (PeelGroup, 23355), (PeelGroupA, 23400), (PeelGroupB, 23445), (PeelGroupMG, 23450), (PeelPair, 23490), (Pelena, 23500), (PGZ07, 23515), (Phalanx, 23525), (PhazotronGukol4, 23529), (PhazotronZhukAAE, 23530), (Philips9LV200, 23535), (Philips9LV331, 23580), (PhilipsLV223, 23625), (PhilipsSeaGiraffe50HC, 23670), (PhimatJammer, 23675), (PICOSAR, 23680), (PILOTMK2, 23685), (PinJib, 23690), (PinTip, 23695), (PL11, 23700), (PL12, 23701), (PL15, 23704), (PlankShad, 23710), (PlankShave, 23715), (PlankShaveA, 23760), (PlankShaveB, 23805), (PlateSteer, 23850), (PlesseyAWS1, 23895), (PlesseyAWS2, 23925), (PlesseyAWS4, 23940), (PlesseyAWS6, 23985), (PlesseyRJ, 23990), (PlesseyType904, 24020), (Plesseytype996, 24030), (PlesseyAWS9, 24035), (PlinthNet, 24075), (Pluto, 24095), (PNABRubinDownBeat, 24098), (POHJANPALO, 24100), (PolimentK, 24110), (POLLUX, 24120), (PotGroup, 24165), (PotGroupMG, 24210), (PotGroupTA, 24255), (PotGroupTT, 24300), (PorkFist, 24320), (PorkTrough, 24345), (PozitivME15P26, 24385), (PositiveME1_2, 24386), (PostBow, 24390), (PostLamp, 24435), (PotDrum, 24480), (PotHead, 24525), (PotShot, 24535), (PraetorianCountermeasuresSuite, 24540), (PRIMUS30A, 24569), (PRIMUS40WXD, 24570), (Primus400, 24614), (PRIMUS300SL, 24615), (Primus500, 24616), (Primus650, 24617), (Primus700, 24618), (PRIMUS800, 24619), (Primus3000, 24620), (Primus870, 24622), (PRORA, 24630), (PRS2, 24631), (PRS3Argon2, 24633), (PRORAPA1660, 24635), (PS15, 24640), (PS05A, 24650), (PS46A, 24660), (PS70R, 24705), (PS171R, 24706), (PS860, 24707), (PS870, 24709), (PS890, 24710), (PSM33, 24720), (PuffBall, 24750), (QuadradarVI, 24755), (QW1A, 24757), (Phazotron1RS21E, 24758), (PVS200, 24760), (PVS2000, 24761), (R330ZH, 24768), (R045, 24769), (R76, 24770), (R934B, 24771), (RA20, 24772), (RA723, 24774), (R41XXX, 24775), (RAC3D, 24776), (RAC30, 24780), (R423AM, 24781), (Racal1229, 24795), (DECCA1230, 24800), (RacalAC2690BT, 24840), (RacalDecca1216, 24885), (RacalDECCA20V909, 24890), (RacalDecca360, 24930), (RacalDeccaAC1290, 24975), (RacalDeccaTM1229, 25020), (RacalDeccaTM1626, 25065), (RacalDRBN34A, 25110), (RADAMHR, 25150), (Radar24, 25155), (RADARPILOT1000, 25170), (RADARPILOT1100, 25171), (RAJENDRA, 25180), (RAN7S, 25200), (RAN10S, 25205), (RAN11LX, 25245), (Rani, 25250), (RAPHAELTH, 25259), (RapierTA, 25260), (Rapier2000TA, 25265), (RapierMG, 25270), (RASCAR3400C, 25273), (Rashmi, 25275), (Rasit, 25276), (Rasit3190B, 25277), (RAT31DLM, 25278), (RAT31DL, 25279), (RAT31S, 25280), (RAT8S, 25281), (RAT31SL, 25282), (RavenES05, 25283), (RATAC, 25285), (RAWL, 25286), (Rattler, 25287), (RAWS, 25288), (RAWL02, 25289), (Raytheon1220, 25290), (RAWS03, 25291), (Raytheon1210xx, 25292), (Raytheon1302, 25300), (Raytheon1500, 25335), (Raytheon1645, 25380), (Raytheon1650, 25425), (Raytheon1900, 25470), (Raytheon2502, 25515), (RaytheonAnschutzNautoScanNX, 25530), (RaytheonR41, 25540), (RaytheonRM10256X, 25545), (RaytheonSL72, 25550), (RaytheonTM16506X, 25560), (RaytheonTM166012S, 25605), (RAY1220XR, 25630), (RAY1401, 25635), (Ray2900, 25650), (RaymarineRD218, 25694), (Raypath, 25695), (RaytheonPathfinderSTmk2, 25698), (RBE2, 25735), (RBE2AA, 25736), (RCT180, 25739), (RDM, 25740), (RDM3, 25745), (RDI, 25750), (RDY, 25760), (RDY3, 25762), (RDS86, 25770), (RDN72, 25785), (RDR1A, 25830), (RDR1E, 25835), (RDR4A, 25840), (RDR150, 25845), (RDR160XD, 25850), (RDR230HP, 25853), (RDR1100, 25855), (RDR1150, 25860), (RDR1200, 25875), (RDR1400, 25885), (RDR1400C, 25890), (RDR4000_1, 25891), (RDR4000_2, 25892), (RDR1500, 25895), (RiceCake, 25896), (RDR1600, 25897), (RDR2000, 25898), (RDR1700B, 25899), (Remora, 25900), (RiceField, 25901), (REC1A, 25902), (REC1B, 25903), (REC1C, 25904), (ResolveEAS, 25906), (RiceCupC, 25907), (REL6E, 25908), (REC1, 25909), (RiceBowl, 25910), (ImprovedReporter, 25911), (RiceBug, 25912), (RiceCup, 25915), (RiceLamp, 25920), (REVATHI, 25940), (REZONANS, 25950), (RGMUGM109B, 25955), (RGMUGM109EHomingRadar, 25958), (RicePad, 25965), (RKL526, 25966), (RKZ764, 25967), (RKZ766, 25968), (RKL165, 25969), (RKL609, 25970), (RKL800, 25971), (RKZ761, 25972), (RKZ2000, 25973), (RIS4CA, 25974), (RL2000, 25975), (RL41, 25976), (RIR778, 25977), (RISAT, 25978), (RLMS, 25979), (RimHatESMECMSuite, 25980), (RiceScoop, 26008), (RiceScreen, 26010), (DECCATM1070A, 26011), (RM370BT, 26015), (RockwellCollinsFMR200X, 26020), (RM2312, 26040), (RM23123, 26041), (RMT0100A, 26043), (RN222, 26045), (ROLAND2, 26053), (ROLANDBN, 26055), (ROLANDMG, 26100), (ROLANDTA, 26145), (ROLANDTT, 26190), (ROTODOME, 26210), (RoundBall, 26235), (RP379DTiradaD, 26236), (RP3, 26237), (RP4G, 26238), (RoundHouse, 26280), (RoundHouseB, 26325), (RPR117, 26326), (RS0250, 26327), (RSR210N, 26328), (RT0250, 26330), (RTA4100, 26340), (RTN1A, 26350), (RTN25X, 26353), (RTS6400, 26354), (RubyRake, 26355), (RumSling, 26360), (RumSlingRO, 26361), (RumSlingTT, 26362), (RV2, 26370), (RV3, 26415), (RV5, 26460), (RV10, 26505), (RV15M, 26506), (RV17, 26550), (RV18, 26595), (RV21, 26596), (RV21B, 26597), (RV25, 26600), (RV377, 26610), (RVUM, 26640), (RWD8, 26650), (RXN260, 26660), (RyeHouse, 26665), (S1810CD, 26670), (Sahab, 26672), (Salamandre, 26673), (SamyungSMR7200, 26674), (S1850M, 26675), (S511, 26676), (S512, 26677), (S600, 26678), (S604, 26679), (S763LANZA3D, 26680), (S613, 26681), (S631, 26682), (S654, 26683), (S669, 26684), (SA2Guideline, 26685), (S244, 26686), (S711, 26687), (SA3Goa, 26730), (SA8GeckoDT, 26775), (SA12TELARILL, 26795), (SA23TELIlluminator, 26797), (SABERM60, 26799), (Samovar, 26805), (Sampson, 26810), (SAN7GadflyTI, 26820), (SAN11Cads1UN, 26865), (SaccadeMH, 26900), (SaltPotAB, 26910), (SAP14, 26920), (SAP518, 26925), (SAP518M, 26926), (SandBar, 26930), (SAPechora2MTT, 26935), (SAR, 26945), (SATRAPE, 26950), (SATURNEII, 26955), (ScanCan, 27000), (ScanFix, 27045), (ScanOdd, 27090), (SCANTER1002, 27095), (SCANTER2001, 27100), (SCANTER2002, 27101), (SCANTER2100, 27102), (SCANTER4002, 27109), (SCANTER4100, 27110), (SCANTER5102, 27111), (SCANTER5502, 27113), (SCANTER6000, 27115), (SCANTER6002, 27116), (ScanterMil009, 27125), (ScanThree, 27135), (SCANTERMILS, 27137), (ScanterSMR, 27139), (SCANTER, 27140), (SCORADS, 27141), (Scimitar, 27142), (STAR2000, 27143), (SCOREBOARD, 27150), (ScoopPair, 27175), (ScoupPlate, 27180), (SCOUT, 27183), (SCR584, 27190), (SeaArcher2, 27225), (SeaBasedXBand, 27230), (SeaDragon, 27235), (SeaEagle, 27239), (SeaEagleSC, 27240), (SEAFALCON, 27245), (SeaGiraffeAMB, 27248), (Seaguard, 27251), (SeaHawkSHNX12, 27260), (SeaHunter4MG, 27270), (SeaHunter4TA, 27315), (SeaHunter4TT, 27360), (SeaGull, 27405), (SeaMaster400, 27430), (SeaNet, 27450), (SeaSparrow, 27451), (SeaSpray, 27495), (SeaTiger, 27540), (SeaTigerM, 27550), (Seastar, 27560), (Searchwater, 27570), (Searchwater2000, 27575), (SEASONDE, 27580), (SEASPRAY7000E, 27582), (SeaVue, 27583), (SeasprayMk3, 27584), (SeleniaOrion7, 27585), (Seleniatype912, 27630), (SelenniaRAN12LX, 27675), (SeleniaRAN20S, 27680), (SelenniaRTN10X, 27720), (SeliniaARP1645, 27765), (SENTIRM20, 27770), (SERDAR, 27771), (SERHAT, 27773), (Series10CompactSubmarineRadarCSR, 27775), (SERIES52, 27780), (SERIES320, 27790), (SG, 27800), (SGJ02, 27802), (SGJ03, 27803), (SGR10200, 27810), (SGR10302, 27855), (SGR104, 27870), (Shahed129SAR, 27873), (SHAHINE, 27875), (SheetBend, 27900), (SheetCurve, 27945), (SHIKRA, 27980), (ShipGlobe, 27990), (ShipWheel, 28035), (SGR114, 28080), (ShoreWalkA, 28125), (ShortHorn, 28170), (ShotDome, 28215), (SideGlobeJN, 28260), (PRV11, 28280), (SideWalkA, 28305), (SignaalDA02, 28350), (SignaalDA05, 28395), (SignaalDA08, 28440), (SignaalDA082LS, 28445), (SignaalLW04, 28480), (SignaalLW08, 28485), (SignaalLWOR, 28530), (SignaalM45, 28575), (SignaalMW08, 28620), (SignaalSMART, 28665), (SignaalSTING, 28710), (SignaalSTIR, 28755), (SignaalSTIR1_8M, 28760), (SignaalSTIR24M, 28770), (SignaalWM202, 28800), (SignaalWM25, 28845), (SignaalWM27, 28890), (SignaalWM28, 28935), (SignaalZW01, 28980), (SignaalZW06, 29025), (SignaalZW07, 29030), (SignaalZW0800, 29035), (SIMRAD3G, 29043), (SIMRAD4G, 29045), (SimradCA54, 29050), (SIMRADHalo6, 29060), (SkiPole, 29070), (SkinHead, 29115), (SkipSpin, 29160), (SKYFENDER, 29172), (SkyWave, 29175), (SkyguardB, 29180), (SKYGUARDTA, 29185), (SKYGUARDTT, 29190), (SkyguardLR, 29191), (Skymaster, 29200), (SkyWatch, 29205), (SkyRanger, 29210), (SKYSHADOW, 29215), (SKYSHIELDTA, 29220), (SL, 29250), (SLALQ234, 29270), (SlapShot, 29295), (SlapShotG, 29297), (SLC2, 29300), (SLC2E, 29301), (SLC4, 29305), (SlimNet, 29340), (SlotBackA, 29385), (SlotBackILL, 29400), (SlotBackB, 29430), (SlotBackIV, 29431), (SlotBackBTopaz, 29432), (SlotBackE, 29433), (SlotBackG, 29434), (SlotBackVI, 29435), (SlotRest, 29440), (SM674AUPM, 29450), (SMA3RM, 29475), (SMA3RM20, 29520), (SMA3RM20ASMG, 29565), (SMABPS704, 29610), (SMASPIN749V2, 29655), (SMASPN703, 29700), (SMASPN751, 29745), (SMASPOS748, 29790), (SMASPQ2, 29835), (SMASPQ2D, 29880), (SMASPQ701, 29925), (SMASPS702, 29970), (SMAST2OTOMATIIMH, 30015), (SR47A, 30016), (SMA718Beacon, 30060), (SmallFred, 30065), (SMARTS, 30068), (SMARTSMk2, 30069), (SMARTL, 30070), (SM932, 30072), (SmogLamp, 30075), (SnapShot, 30080), (SnoopDrift, 30105), (SnoopHalf, 30140), (SnoopHead, 30150), (SnoopPair, 30195), (SnoopPing1, 30200), (SnoopPlate, 30240), (SnoopPing, 30255), (SnoopSlab, 30285), (SnoopTray, 30330), (SnoopTray1, 30375), (SnoopTray2, 30420), (SNOOPTRAY3, 30421), (SnoopWatch, 30465), (_9S18M1, 30470), (_9S18M1E, 30471), (SPB7, 30475), (SnowDrop, 30480), (SNW10, 30490), (SO1, 30510), (SO12, 30520), (SOACommunist, 30555), (SO69, 30580), (SockEye, 30600), (SOM64, 30645), (Sopka, 30650), (Sorbsiya, 30660), (SorbtsiyaL005, 30661), (SorbtsiyaL005S, 30662), (SPADASIR, 30665), (SPADATT, 30670), (SparrowILL, 30690), (SPERRYRASCAR, 30691), (SPECTRA, 30692), (SPEAR3MMW, 30696), (SperryM3, 30700), (SPERRYVISIONMASTERFT, 30701), (SPEXER2000, 30710), (SPG53F, 30735), (SPG70, 30780), (SPG74, 30825), (SPG75, 30870), (SPG76, 30915), (SpinScanA, 30960), (SpinScanB, 31005), (SpinTrough, 31050), (SPINODADDAWTR, 31070), (SPJ40, 31080), (SplashDrop, 31095), (SPN2, 31096), (SPN4, 31097), (SPN30, 31100), (SPN35A, 31140), (SPN41, 31185), (SPN42, 31230), (SPN43A, 31275), (SPN43B, 31320), (SPN44, 31365), (SPN46, 31410), (SPN703, 31455), (SPN720, 31475), (SPN7281, 31500), (SPN748, 31545), (SPN750, 31590), (SPO8, 31592), (SPN753G, 31593), (SpongeCake, 31635), (P12, 31680), (P18SpoonRestA, 31681), (P18SpoonRestB, 31682), (P18SpoonRestC, 31684), (P18MH2, 31685), (SporkRest, 31700), (SPQ712, 31725), (SPR2, 31730), (SPR51, 31740), (SPS5FASOL, 31765), (SPS6, 31766), (SPS6C, 31770), (SPS10F, 31815), (SPS12, 31860), (SPS22NBUKET, 31870), (SPS33NBUKET, 31875), (SPS44NBUKET, 31880), (SPS55NBUKET, 31890), (SPS58, 31905), (SPS62, 31925), (SPS100K, 31935), (SPS64, 31950), (SPS141, 31951), (SPS142, 31952), (SPS143, 31953), (SPS151, 31955), (SPS152, 31956), (SPS153, 31957), (SPS160Geran, 31959), (SPS161, 31960), (SPS95K, 31970), (SPS171Jammer, 31971), (SPS172Jammer, 31972), (SPS768, 31995), (SPS540K, 32010), (SPS550KMF, 32020), (SPS774, 32040), (SPY790, 32085), (SquareHead, 32130), (SquarePair, 32175), (SquareSlot, 32220), (SquareTie, 32265), (Shmel, 32310), (P15M, 32330), (SquintEye, 32355), (SQUIRE, 32365), (SR2410C, 32373), (SR47BG, 32375), (SREM5, 32385), (SRN6, 32400), (SRN15, 32445), (SRN206, 32455), (SRN745, 32490), (SRO1, 32535), (SRO2, 32580), (SSC2BSamletMG, 32625), (SSN2ABCSSC, 32670), (SSN2ABCSSC2A3A2MH, 32715), (SSN2CSeeker, 32760), (SSN2CDStyx, 32805), (SSN2CDStyxCDMH, 32850), (SSN2CStyxAL, 32851), (SSN2DStyxAL, 32852), (SSN2SSCSSC18BN, 32895), (SSN3BSepalAL, 32940), (SSN3BSepalMH, 32985), (SSN7Starbright, 33025), (SSN9Siren, 33030), (SSN9SirenAL, 33075), (SSN9SirenMH, 33120), (SSN10AFL10mmWMH, 33125), (SSN11Nasr1mmWMH, 33140), (SSN12SandboxAL, 33165), (SSN12YJ83JmmWMH, 33166), (SSN12SandboxMH, 33210), (SSNX13Shredder, 33230), (SSN14BSilexAL, 33231), (SSN19Shipwreck, 33255), (SSN19ShipwreckAL, 33300), (SSN19ShipwreckMH, 33345), (SSN21AL, 33390), (SSN22Sunburn, 33435), (SSN22SunburnMH, 33480), (SSN22SunburnAL, 33481), (SSN25SwitchbladeMH, 33483), (SSN26StrobileMMWMH, 33484), (SSN27SizzlerMH, 33485), (SSN27ASizzlerAL, 33486), (STINGEOMk2, 33505), (STIR1_2EOMk2, 33510), (STIR2_4HPMk2, 33511), (StoneCake, 33525), (STR41, 33570), (ST858, 33580), (START1M, 33582), (STENTOR, 33584), (StormShadowAHR, 33585), (STRAIGHTFLUSH, 33586), (StraightFlushTA, 33590), (StraightFlushTT, 33595), (StraightFlushILL, 33600), (StrikeOut, 33615), (StrutCurve, 33660), (StrutPair, 33705), (StrutPair1, 33750), (StrutPair2, 33795), (SunVisor, 33840), (SUPERDARN, 33850), (Superfledermaus, 33860), (Supersearcher, 33870), (SwiftRod1, 33885), (SwiftRod2, 33930), (SYMPHONY, 33933), (SYNAPSISMk2, 33935), (SY80, 33950), (T1166, 33975), (T1171, 34020), (T1202, 34040), (T6004, 34065), (T6031, 34110), (T8067, 34155), (T8068, 34200), (T8124, 34245), (T8408, 34290), (T8911, 34335), (T8937, 34380), (T8944, 34425), (T8987, 34470), (TA10K, 34480), (JY11B, 34500), (TACANSURF, 34505), (P14_2, 34515), (TALLKINGB, 34516), (TALLKINGC, 34517), (TallMike, 34560), (TallPath, 34605), (TDR94, 34607), (TeaSpoon, 34610), (TeamPlay, 34620), (TALISMAN, 34624), (TeamWork, 34625), (T1135, 34626), (TANCANSURF, 34627), (TECSAR, 34628), (TERRASARX, 34629), (TESAR, 34630), (THAADGBR, 34640), (ThalesRDY2, 34644), (ThalesNederlandSignaalAPAR, 34645), (ThalesScorpionJammer, 34646), (ThalesVariant, 34647), (ThalesICMSJammer, 34648), (ThalesIMEWSJammer, 34649), (THD225, 34650), (THD1012, 34655), (THD1098, 34660), (THD1213, 34665), (THD1940, 34670), (THD1955Palmier, 34680), (THD5500, 34695), (ThirdofKhordad, 34700), (ThinPath, 34740), (PRV9, 34785), (PRV16, 34786), (ThompsonCSFTA10, 34795), (ThompsonCSFTHD1040Neptune, 34830), (ThompsonCSFCalypso, 34875), (ThompsonCSFCASTOR, 34920), (ThompsonCSFCastorII, 34965), (ThomsonCSFDomino30, 34966), (ThompsonCSFDRBC32A, 35010), (ThompsonCSFDRBJ11DE, 35055), (ThompsonCSFDRBV15A, 35100), (ThompsonCSFDRBV15C, 35145), (ThompsonCSFDRBV22D, 35190), (ThompsonCSFDRBV23B, 35235), (ThompsonCSFDRUA33, 35280), (ThompsonCSFMarsDRVB21A, 35325), (ThompsonCSFSeaTiger, 35370), (ThompsonCSFTriton, 35415), (ThompsonCSFVegawithDRBC32E, 35460), (ThomsonENR, 35470), (ThomsonRDI, 35475), (TierIIPlus, 35477), (TPS755, 35478), (TPS830K, 35479), (TRS2105, 35480), (TR23K, 35481), (TR23MR, 35482), (TRAC2100, 35483), (TRAC2300, 35484), (HT223, 35485), (TRADEX, 35486), (TRAILXI, 35487), (TRD1211, 35488), (TRD1235, 35489), (TRS2100, 35490), (TRACNG, 35491), (TieRods, 35505), (_36D6, 35550), (TinTrap, 35570), (TIRSPONDER, 35580), (TK25E5, 35583), (TMKMk2, 35585), (TMXMk2, 35586), (ToadStool1, 35595), (ToadStool2, 35640), (ToadStool3, 35685), (ToadStool4, 35730), (ToadStool5, 35775), (TokenB, 35785), (TombStone, 35800), (Tonson, 35810), (TopBow, 35820), (TopDome, 35865), (TopKnot, 35910), (TopMesh, 35955), (TopPair, 36000), (TopPlate, 36045), (TopPlateB, 36046), (TopSail, 36090), (TYPE208, 36120), (TopSteer, 36135), (TopTrough, 36180), (TornadoGMR, 36200), (TornadoTFR, 36201), (ScrumHalfTA, 36220), (ScrumHalfTT, 36225), (TORM2TER, 36226), (ScrumHalfMG, 36230), (TrackDish, 36270), (TR47C, 36300), (TORSOM, 36315), (TQN2, 36320), (TrapDoor, 36360), (TRD1500, 36365), (TrickShotTAR, 36370), (TrickShotTER, 36371), (TRISPONDE, 36380), (TRML, 36381), (TRS2215, 36382), (TRML3D, 36383), (TRMS, 36384), (TRS2056, 36385), (TRS3010, 36386), (TRS2060, 36387), (TRS2245, 36388), (TRS2310, 36389), (TritonG, 36390), (TRS22XX, 36391), (TRS3030, 36400), (TRS3033, 36405), (TRS3203, 36417), (TRS3405, 36420), (TRS3410, 36425), (TRS3415, 36430), (TRS3D, 36440), (TRS3D16, 36441), (TRS3D16ES, 36442), (TRS3D32, 36443), (TRS4D, 36446), (TRSC, 36447), (TRSN, 36450), (TS4478A, 36460), (TSE5000, 36495), (TSR333, 36540), (TSR793, 36550), (TubBrick, 36563), (TubeArm, 36585), (TW1374, 36590), (TW1378, 36595), (TW1446, 36600), (TwinEyes, 36630), (TwinPill, 36675), (TwinScan, 36720), (TwinScanRo, 36765), (TwoSpot, 36810), (Type071LPD, 36821), (Type212JA, 36827), (Type221JA, 36830), (Type223, 36835), (Type80ASM1, 36836), (Type120, 36838), (Type208, 36840), (Type222, 36843), (Type226, 36846), (Type232H, 36850), (TYPE245, 36853), (TYPE262, 36855), (TYPE275, 36900), (TYPE278, 36905), (TYPE293, 36945), (Type341, 36946), (TYPE313, 36947), (Type305A, 36948), (Type334, 36960), (Type342, 36985), (TYPE343SUNVISORB, 36990), (Type344, 36992), (Type345, 37010), (Type346, 37011), (Type349A, 37033), (TYPE347B, 37035), (Type347G, 37038), (Type359, 37039), (Type352, 37040), (Type360, 37041), (Type362ESR1SR47B, 37043), (Type354, 37045), (Type366, 37047), (Type363, 37048), (Type364, 37049), (Type404A, 37050), (Type405, 37052), (TYPE405J, 37053), (Type408D, 37058), (Type517B, 37059), (Type518, 37060), (Type589, 37070), (TYPE651, 37073), (Type753_1, 37075), (Type702, 37077), (Type704, 37078), (Type753_2, 37079), (Type756, 37080), (TYPE713, 37081), (TYPE714, 37082), (TYPE702D, 37083), (TYPE760, 37084), (Type760, 37086), (Type815, 37090), (Type793, 37095), (Type8A813, 37100), (TYPE901M, 37105), (TYPE902, 37110), (Type902B, 37124), (TYPE903, 37125), (TYPE909TI, 37170), (TYPE909TT, 37215), (TYPE910, 37260), (TYPE931, 37265), (TYPE965, 37305), (TYPE967, 37350), (TYPE968, 37395), (TYPE974, 37440), (TYPE975, 37485), (TYPE978, 37530), (Type981, 37534), (Type9813, 37535), (TYPE982, 37540), (Type984, 37543), (Type985, 37544), (TYPE992, 37575), (TYPE993, 37620), (TYPE994, 37665), (Type996, 37670), (Type997Artisan, 37675), (TYPE1006_1, 37710), (TYPE1006_2, 37755), (TYPE1022, 37800), (Type1047, 37810), (Type1048, 37815), (Type1474, 37825), (Type1493, 37828), (ULTRA, 37840), (UKMK10, 37845), (UPS220C, 37850), (UPX110, 37890), (UPX27, 37935), (URN20, 37980), (UTESA, 37985), (UTEST, 37990), (URN25, 38025), (VIGILANT, 38035), (VitebskL370Jammer, 38038), (VOLEXIIIIV, 38045), (VOLGA, 38046), (VORONEZHDM, 38047), (VOSTOK, 38048), (VOSTOKE, 38049), (VSR, 38050), (VOSTOK3D, 38051), (VSTARPT, 38055), (W160, 38058), (W1028, 38060), (W8818, 38070), (W8838, 38115), (W8852, 38120), (WALLBOARD, 38140), (WallRust, 38150), (WAS74S, 38160), (WaspHead, 38205), (WATCHDOG, 38210), (WatchGuard, 38250), (Watchman, 38260), (WAVESTORM, 38270), (WATCHMANS, 38275), (WATCHMANT, 38276), (WEATHERSCOUT2, 38280), (WesternElectricMK10, 38295), (WestinghouseADR4LRSR, 38320), (WestinghouseElectricSPG50, 38340), (WestinghouseElectricW120, 38385), (WestinghouseSPS29C, 38430), (WestinghouseSPS37, 38475), (WetEye, 38520), (WetEye2, 38525), (WetEyeMod, 38565), (WF44S, 38568), (WGU41B, 38570), (WGU44B, 38572), (Whiff, 38610), (WhiffBrick, 38655), (WhiffFire, 38700), (WHITEHOUSE, 38715), (WideMat, 38730), (WineGlassJammer, 38735), (WildCard, 38745), (WILDCAT, 38748), (WitchEight, 38790), (WitchFive, 38835), (WLR, 38840), (WM2XSeries, 38880), (WM2XSeriesCAS, 38925), (WR10X, 38930), (WR2100, 38935), (WSR74C, 38950), (WSR74S, 38955), (WSR81, 38957), (WXR700C, 38960), (WXR2100, 38965), (WXR2100MSTT, 38966), (WoodGage, 38970), (XTAR25, 38990), (XTAR3D, 38995), (YAOGAN3, 39000), (Yaogan29, 39014), (YardRake, 39015), (YH96, 39050), (YewLoop, 39060), (YITIANADS, 39061), (YD3, 39062), (YJ12MH, 39063), (YJ62MH, 39065), (YJ82MH, 39066), (YJ83MH, 39067), (YLC2, 39070), (YLC2A, 39071), (YLC4, 39073), (YLC6, 39074), (YLC6M, 39075), (YLC8, 39080), (YLC8B, 39081), (YLC18, 39085), (YoYo, 39105), (ZaslonA, 39110), (ZaslonMultipurpose, 39112), (ZooPark1, 39125), (ZPS6, 39126), (ZOOPARK3, 39127), (ZD12, 39131), (ZW06, 39150), (ANALQ1361, 39200), (ANALQ1362, 39201), (ANALQ1363, 39202), (ANALQ1364, 39203), (ANALQ1365, 39204), (ANALQ1622, 39210), (ANALQ1623, 39211), (ANALQ1624, 39212), (ZhukM, 45300), (ZHUKMAE, 45303), (ZHUKME, 45304), (ZHUKMME, 45305), (ZhukMSE, 45307)]);
wire_enum!(EmitterSystemFunction, 1, Other, [(Other, 0), (MultiFunction, 1), (EarlyWarningSurveillance, 2), (HeightFinder, 3), (FireControl, 4), (AcquisitionDetection, 5), (Tracker, 6), (GuidanceIllumination, 7), (FiringPointLaunchPointLocation, 8), (RangeOnly, 9), (RadarAltimeter, 10), (Imaging, 11), (MotionDetection, 12), (Navigation, 13), (WeatherMeteorological, 14), (Instrumentation, 15), (IdentificationClassification, 16), (AAAFireControl, 17), (AirSearchBomb, 18), (AirIntercept, 19), (Altimeter, 20), (AirMapping, 21), (AirTrafficControl, 22), (Beacon, 23), (BattlefieldSurveillance, 24), (GroundControlApproach, 25), (GroundControlIntercept, 26), (CoastalSurveillance, 27), (DecoyMimic, 28), (DataTransmission, 29), (EarthSurveillance, 30), (GunLayBeacon, 31), (GroundMapping, 32), (HarborSurveillance, 33), (IFF, 34), (InstrumentLandingSystem, 35), (IonosphericSound, 36), (Interrogator, 37), (BarrageJamming, 38), (ClickJamming, 39), (DeceptiveJamming, 40), (FrequencySweptJamming, 41), (Jammer, 42), (NoiseJamming, 43), (PulsedJamming, 44), (RepeaterJamming, 45), (SpotNoiseJamming, 46), (MissileAcquisition, 47), (MissileDownlink, 48), (Meteorological, 49), (Space, 50), (SurfaceSearch, 51), (ShellTracking, 52), (Television, 56), (Unknown, 57), (VideoRemoting, 58), (ExperimentalOrTraining, 59), (MissileGuidance, 60), (MissileHoming, 61), (MissileTracking, 62), (JammingNoise, 64), (JammingDeception, 65), (Decoy, 66), (NavigationDistanceMeasuringEquipment, 71), (TerrainFollowing, 72), (WeatherAvoidance, 73), (ProximityFuse, 74), (Instrumentation_, 75), (Radiosonde, 76), (Sonobuoy, 77), (BathythermalSensor, 78), (TowedCounterMeasure, 79), (DippingSonar, 80), (TowedAcousticSensor, 81), (WeaponNonlethal, 96), (WeaponLethal, 97), (TestEquipment, 98), (AcquisitionTrack, 99), (TrackGuidance, 100), (GuidanceIlluminationTrackAcquisition, 101), (SearchAcquisition, 102), (Dropsonde, 103)]);
wire_enum!(EntityCapabilities, 4, LandPlatformEntityCapabilities, [(LandPlatformEntityCapabilities, 0), (AirPlatformEntityCapabilities, 1), (SurfacePlatformEntityCapabilities, 2), (SubsurfacePlatformEntityCapabilities, 3), (SpacePlatformEntityCapabilities, 4), (MunitionEntityCapabilities, 5), (LifeFormsEntityCapabilities, 6), (EnvironmentalEntityCapabilities, 7), (CulturalFeatureEntityCapabilities, 8), (SupplyEntityCapabilities, 9), (RadioEntityCapabilities, 10), (ExpendableEntityCapabilities, 11), (SensorEmitterEntityCapabilities, 12)]);
wire_enum!(EntityKind, 1, Other, [(Other, 0), (Platform, 1), (Munition, 2), (LifeForm, 3), (Environmental, 4), (CulturalFeature, 5), (Supply, 6), (Radio, 7), (Expendable, 8), (SensorEmitter, 9)]);
wire_enum!(EntityMarkingCharacterSet, 1, Unused, [(Unused, 0), (ASCII, 1), (USArmyMarking, 2), (DigitChevron, 3)]);
wire_enum!(EventType, 4, Other, [(Other, 0), (RanOutOfAmmunition, 2), (KilledInAction, 3), (Damage, 4), (MobilityDisabled, 5), (FireDisabled, 6), (RanOutOfFuel, 7), (EntityInitialization, 8), (RequestForIndirectFireOrCASMission, 9), (IndirectFireOrCASFire, 10), (MinefieldEntry, 11), (MinefieldDetonation, 12), (VehicleMasterPowerOn, 13), (VehicleMasterPowerOff, 14), (AggregateStateChangeRequested, 15), (PreventCollisionDetonation, 16), (OwnershipReport, 17), (RadarPerception, 18), (Detect, 19)]);
wire_enum!(ForceId, 1, Other, [(Other, 0), (Friendly, 1), (Opposing, 2), (Neutral, 3), (Friendly2, 4), (Opposing2, 5), (Neutral2, 6), (Friendly3, 7), (Opposing3, 8), (Neutral3, 9), (Friendly4, 10), (Opposing4, 11), (Neutral4, 12), (Friendly5, 13), (Opposing5, 14), (Neutral5, 15), (Friendly6, 16), (Opposing6, 17), (Neutral6, 18), (Friendly7, 19), (Opposing7, 20), (Neutral7, 21), (Friendly8, 22), (Opposing8, 23), (Neutral8, 24), (Friendly9, 25), (Opposing9, 26), (Neutral9, 27), (Friendly10, 28), (Opposing10, 29), (Neutral10, 30)]);
wire_enum!(GridAxisDescriptorAxisType, 1, RegularAxis, [(RegularAxis, 0), (IrregularAxis, 1)]);
wire_enum!(GriddedDataConstantGrid, 1, Constantgrid, [(Constantgrid, 0), (Updatedgrid, 1)]);
wire_enum!(GriddedDataCoordinateSystem, 2, RightHandedCartesian, [(RightHandedCartesian, 0), (LeftHandedCartesian, 1), (LatitudeLongitudeHeight, 2), (LatitudeLongitudeDepth, 3)]);
wire_enum!(GriddedDataDataRepresentation, 1, Type0, [(Type0, 0), (Type1, 1), (Type2, 2)]);
wire_enum!(GriddedDataSampleType, 1, NotSpecified, [(NotSpecified, 0)]);
wire_enum!(IOActionIOActionPhase, 2, NoStatement, [(NoStatement, 0), (StartAttackProfile, 1), (EndAttackProfile, 2), (ContinueAttackProfilewithChanges, 3), (StartAttackEffects, 4), (EndAttackedEffects, 5), (ContinueAttackEffectswithChanges, 6)]);
wire_enum!(IOActionIOActionType, 2, NoStatement, [(NoStatement, 0), (IOAttackProfileData, 1), (IOAttackComputedEffects, 2), (IntentBasedEW, 3), (IntentBasedEWComputedEffects, 4)]);
wire_enum!(IOActionIOSimulationSource, 2, NoStatement, [(NoStatement, 0)]);
wire_enum!(IOActionIOWarfareType, 2, NoStatement, [(NoStatement, 0), (ElectronicWarfare, 1), (ComputerNetworkOperations, 2), (PsychologicalOperations, 3), (MilitaryDeception, 4), (OperationsSecurity, 5), (PhysicalAttack, 6)]);
wire_enum!(IOReportIOReportType, 1, NoStatement, [(NoStatement, 0), (InitialReport, 1), (UpdateReport, 2), (FinalReport, 3)]);
wire_enum!(IntercomControlCommand, 1, NoCommand, [(NoCommand, 0), (Status, 1), (Connect, 2), (Disconnect, 3), (Reset, 4), (On, 5), (Off, 6)]);
wire_enum!(IntercomControlControlType, 1, Reserved, [(Reserved, 0), (Status, 1), (RequestAcknowledgeRequired, 2), (RequestNoAcknowledge, 3), (AckRequestGranted, 4), (NackRequestDenied, 5)]);
wire_enum!(IntercomControlTransmitLineState, 1, TransmitLineStatenotapplicable, [(TransmitLineStatenotapplicable, 0), (NotTransmitting, 1), (Transmitting, 2)]);
wire_enum!(IsGroupOfGroupedEntityCategory, 1, Undefined, [(Undefined, 0), (BasicGroundCombatVehicle, 1), (EnhancedGroundCombatVehicle, 2), (BasicGroundCombatSoldier, 3), (EnhancedGroundCombatSoldier, 4), (BasicRotorWingAircraft, 5), (EnhancedRotorWingAircraft, 6), (BasicFixedWingAircraft, 7), (EnhancedFixedWingAircraft, 8), (GroundLogisticsVehicle, 9)]);
wire_enum!(MinefieldSensorTypes, 1, Other, [(Other, 0), (Optical, 1), (FLIR, 2), (RADAR, 3), (Magnetic, 4), (Laser, 5), (SONAR, 6), (Physical, 7), (Multispectral, 8)]);
wire_enum!(MinefieldStateProtocolMode, 2, HeartbeatMode, [(HeartbeatMode, 0), (QRPMode, 1)]);
wire_enum!(PduType, 1, Other, [(Other, 0), (EntityState, 1), (Fire, 2), (Detonation, 3), (Collision, 4), (ServiceRequest, 5), (ResupplyOffer, 6), (ResupplyReceived, 7), (ResupplyCancel, 8), (RepairComplete, 9), (RepairResponse, 10), (CreateEntity, 11), (RemoveEntity, 12), (StartResume, 13), (StopFreeze, 14), (Acknowledge, 15), (ActionRequest, 16), (ActionResponse, 17), (DataQuery, 18), (SetData, 19), (Data, 20), (EventReport, 21), (Comment, 22), (ElectromagneticEmission, 23), (Designator, 24), (Transmitter, 25), (Signal, 26), (Receiver, 27), (IFF, 28), (UnderwaterAcoustic, 29), (SupplementalEmission, 30), (IntercomSignal, 31), (IntercomControl, 32), (AggregateState, 33), (IsGroupOf, 34), (TransferOwnership, 35), (IsPartOf, 36), (MinefieldState, 37), (MinefieldQuery, 38), (MinefieldData, 39), (MinefieldResponseNack, 40), (EnvironmentalProcess, 41), (GriddedData, 42), (PointObjectState, 43), (LinearObjectState, 44), (ArealObjectState, 45), (TimeSpacePositionInformation, 46), (Appearance, 47), (ArticulatedParts, 48), (LiveEntityFire, 49), (LiveEntityDetonation, 50), (CreateEntityReliable, 51), (RemoveEntityReliable, 52), (StartResumeReliable, 53), (StopFreezeReliable, 54), (AcknowledgeReliable, 55), (ActionRequestReliable, 56), (ActionResponseReliable, 57), (DataQueryReliable, 58), (SetDataReliable, 59), (DataReliable, 60), (EventReportReliable, 61), (CommentReliable, 62), (RecordReliable, 63), (SetRecordReliable, 64), (RecordQueryReliable, 65), (CollisionElastic, 66), (EntityStateUpdate, 67), (DirectedEnergyFire, 68), (EntityDamageStatus, 69), (InformationOperationsAction, 70), (InformationOperationsReport, 71), (Attribute, 72)]);
wire_enum!(ProtocolFamily, 1, Other, [(Other, 0), (EntityInformation, 1), (Warfare, 2), (Logistics, 3), (RadioCommunications, 4), (SimulationManagement, 5), (DistributedEmissionRegeneration, 6), (EntityManagement, 7), (Minefield, 8), (SyntheticEnvironment, 9), (SimulationManagementWithReliability, 10), (LiveEntityInformationInteraction, 11), (NonRealTime, 12), (InformationOperations, 13)]);
wire_enum!(ProtocolVersion, 1, IEEE1278_1_2012, [(Other, 0), (DIS_PDUv1, 1), (IEEE1278_1993, 2), (DIS_PDUv2_Third_Draft, 3), (DIS_PDUv2_Fourth_Draft_Revised, 4), (IEEE1278_1_1995, 5), (IEEE1278_1A_1998, 6), (IEEE1278_1_2012, 7)]);
wire_enum!(Reason, 1, Other, [(Other, 0), (Recess, 1), (Termination, 2), (SystemFailure, 3), (SecurityViolation, 4), (EntityReconstitution, 5), (StopForReset, 6), (StopForRestart, 7), (AbortTrainingReturnToTacticalOperations, 8)]);
wire_enum!(ReceiverReceiverState, 2, Off, [(Off, 0), (Onbutnotreceiving, 1), (Onandreceiving, 2)]);
wire_enum!(RecordQueryREventType, 2, Periodic, [(Periodic, 0), (InternalEntityStateData, 1)]);
wire_enum!(RepairCompleteRepair, 2, NoRepairsPerformed, [(NoRepairsPerformed, 0), (AllRequestedrepairSperformed, 1), (MotorEngine, 10), (Starter, 20), (Alternator, 30), (Generator, 40), (Battery, 50), (EngineCoolantLeak, 60), (FuelFilter, 70), (TransmissionOilLeak, 80), (EngineOilLeak, 90), (Pumps, 100), (DriveTrainFilters, 110), (Transmission, 120), (Brakes, 130), (SuspensionSystem, 140), (OilFilter, 150), (Hull, 1000), (Airframe, 1010), (TruckBody, 1020), (TankBody, 1030), (TrailerBody, 1040), (Turret, 1050), (Propeller, 1500), (EnvironmentFilters, 1520), (Wheels, 1540), (Tire, 1550), (Track, 1560), (GunElevationDrive, 2000), (GunStabilizationSystem, 2010), (GunnersPrimarySight, 2020), (CommandersExtensionToTheGPS, 2030), (LoadingMechanism, 2040), (GunnersAuxiliarySight, 2050), (GunnersControlPanel, 2060), (GunnersControlAssemblyHandle, 2070), (CommandersControlHandlesAssembly, 2090), (CommandersWeaponStation, 2100), (CommandersIndependentThermalViewer, 2110), (GeneralWeapons, 2120), (FuelTransferPump, 4000), (FuelLines, 4010), (Gauges, 4020), (GeneralFuelSystem, 4030), (ElectronicWarfareSystems, 4500), (DetectionSystems, 4600), (DetectionSystemsRadioFrequency, 4610), (DetectionSystemsMicrowave, 4620), (DetectionSystemsInfrared, 4630), (DetectionSystemsLaser, 4640), (RangeFinders, 4700), (RangeOnlyrAdar, 4710), (LaserRangeFinder, 4720), (ElectronicSystems, 4800), (ElectronicsSystemsRadioFrequency, 4810), (ElectronicsSystemsMicrowave, 4820), (ElectronicsSystemsInfrared, 4830), (ElectronicsSystemsLaser, 4840), (Radios, 5000), (CommunicationSystems, 5010), (Intercoms, 5100), (Encoders, 5200), (EncryptionDevices, 5250), (Decoders, 5300), (DecryptionDevices, 5350), (Computers, 5500), (NavigationAndControlSystems, 6000), (FireControlSystems, 6500), (AirSupply, 8000), (LifeSupportSystemsFilters, 8010), (WaterSupply, 8020), (RefrigerationSystem, 8030), (ChemicalBiologicalAndRadiologicalProtection, 8040), (WaterWashdownSystems, 8050), (DecontaminationSystems, 8060), (Watersupply, 9000), (Coolingsystem, 9010), (Winches, 9020), (Catapults, 9030), (Cranes, 9040), (Launchers, 9050), (Lifeboats, 10000), (Landingcraft, 10010), (Ejectionseats, 10020)]);
wire_enum!(RepairResponseRepairResult, 1, Other, [(Other, 0), (RepairEnded, 1), (InvalidRepair, 2), (RepairInterrupted, 3), (ServiceCanceledByTheSupplier, 4)]);
wire_enum!(RequiredReliabilityService, 1, Acknowledged, [(Acknowledged, 0), (Unacknowledged, 1)]);
wire_enum!(ServiceRequestServiceTypeRequested, 1, Other, [(Other, 0), (Resupply, 1), (Repair, 2), (AerialRefuelingHighFidelity, 3), (AerialRefuelingLowFidelity, 4)]);
wire_enum!(SignalTDLType, 2, Other, [(Other, 0), (PADIL, 1), (NATOLink1, 2), (ATDL1, 3), (Link11B, 4), (SituationalAwarenessDataLink, 5), (Link16LegacyFormatJTIDSTADILJ, 6), (Link16LegacyFormatJTIDSFDLTADILJ, 7), (Link11, 8), (IJMS, 9), (Link4A, 10), (Link4C, 11), (TIBS, 12), (ATL, 13), (ConstantSource, 14), (AbbreviatedCommandandControl, 15), (MILSTAR, 16), (ATHS, 17), (OTHGOLD, 18), (TACELINT, 19), (WeaponsDataLink, 20), (AbbreviatedCommandandControl_, 21), (EnhancedPositionLocationReportingSystem, 22), (PositionLocationReportingSystem, 23), (SINCGARS, 24), (HAVEQUICKI, 25), (HAVEQUICKII, 26), (SATURN, 27), (IntraFlightDataLink1, 28), (IntraFlightDataLink2, 29), (ImprovedDataModem, 30), (AirForceApplicationProgramDevelopment, 31), (CooperativeEngagementCapability, 32), (ForwardAreaAirDefense, 33), (GroundBasedDataLink, 34), (IntraVehicularInfoSystem, 35), (MarineTacticalSystem, 36), (TacticalFireDirectionSystem, 37), (IntegratedBroadcastService, 38), (AirborneInformationTransfer, 39), (AdvancedTacticalAirborneReconnaissanceSystemDataLink, 40), (BattleGroupPassiveHorizonExtensionSystemDataLink, 41), (CommonHighBandwidthDataLink, 42), (GuardrailInteroperableDataLink, 43), (GuardrailCommonSensorSystemOneDataLink, 44), (GuardrailCommonSensorSystemTwoDataLink, 45), (GuardrailCSS2MultiRoleDataLink, 46), (GuardrailCSS2DirectAirtoSatelliteRelayDataLink, 47), (LineofSight, 48), (LightweightCDL, 49), (L52M, 50), (RivetReachRivetOwlDataLink, 51), (SeniorSpan, 52), (SeniorSpur, 53), (SeniorStretch_, 54), (SeniorYearInteroperableDataLink, 55), (SpaceCDL, 56), (TR1modeMISTAirborneDataLink, 57), (KubandSATCOMDataLinkImplementation, 58), (MissionEquipmentControlDatalink, 59), (RadarDataTransmittingSetDataLink, 60), (SurveillanceandControlDataLink, 61), (TacticalUAVVideo, 62), (UHFSATCOMDataLinkImplementation, 63), (TacticalCommonDataLink, 64), (LowLevelAirPictureInterface, 65), (WeaponsDataLinkAGM130, 66), (AutomaticIdentificationSystemAIS, 67), (WeaponsDataLinkAIM120, 68), (WeaponsDataLinkAIM9, 69), (WeaponsDataLinkCAMM, 70), (GC3, 99), (Link16StandardizedFormat, 100), (Link16EnhancedDataRate, 101), (JTIDSMIDSNetDataLoad, 102), (Link22, 103), (AFIWCIADSCommunicationsLinks, 104), (F22IntraFlightDataLink, 105), (LBandSATCOM, 106), (TSAFCommunicationsLink, 107), (EnhancedSINCGARS7_3, 108), (F35MultifunctionAdvancedDataLink, 109), (CursoronTarget, 110), (AllPurposeStructuredEurocontrolSurveillanceInformationExchange, 111), (VariableMessageFormat, 112), (Link16SurrogateforNonNATOTDL, 113), (MQ19CBandLOSUplink, 114), (MQ19CBandLOSDownlink, 115), (MQ19KuBandSATCOMUplink, 116), (MQ19KuBandSATCOMDownlink, 117), (WeaponsDatalinkSDBII, 118), (JTACSAUplink, 119), (CommonInteractiveBroadcast, 120), (JointRangeExtensionApplicationProtocolA, 121), (JPALSDataLink, 125), (OneSAFIADSCommunicationsLink, 126), (TacticalTargetingNetworkTechnologyApplication, 127)]);
wire_enum!(TransferControlTransferType, 1, Other, [(Other, 0), (PushTransferEntity, 1), (AutomaticPullTransferEntity, 2), (PushTransferEnvironmentalProcess, 4), (AutomaticPullTransferEnvironmentalProcess, 5), (CancelTransfer, 7), (ManualPullTransferEntity, 8), (ManualPullTransferEnvironmentalProcess, 9), (RemoveEntity, 10)]);
wire_enum!(TransmitterAntennaPatternType, 2, Isotropic, [(Isotropic, 0), (Beam, 1), (Sphericalharmonic, 2), (TransmitterRadiationVolume, 4), (BeamandTransmitterRadiationVolume, 5), (Omnidirectional, 6)]);
wire_enum!(TransmitterCryptoSystem, 2, NoEncryptionDevice, [(NoEncryptionDevice, 0), (KY28, 1), (KY58, 2), (NarrowSpectrumSecureVoice, 3), (WideSpectrumSecureVoice, 4), (SINCGARSICOM, 5), (KY75, 6), (KY100, 7), (KY57, 8), (KYV5, 9), (Link11KG40AP, 10), (Link11BKG40AS, 11), (Link11KG40AR, 12), (KGV135A, 13), (TacticalSecureVoice, 14)]);
wire_enum!(TransmitterInputSource, 1, Other, [(Other, 0), (Pilot, 1), (Copilot, 2), (FirstOfficer, 3), (Driver, 4), (Loader, 5), (Gunner, 6), (Commander, 7), (DigitalDataDevice, 8), (Intercom, 9), (AudioJammer, 10), (DataJammer, 11), (GPSJammer, 12), (GPSMeaconer, 13), (SATCOMUplinkJammer, 14)]);
wire_enum!(TransmitterTransmitState, 1, Off, [(Off, 0), (Onbutnottransmitting, 1), (Onandtransmitting, 2)]);
wire_enum!(UAAcousticEmitterSystemFunction, 1, Other, [(Other, 0), (Platformsearchdetecttrack, 1), (Navigation, 2), (Minehunting, 3), (Weaponsearchdetecttrackdetect, 4)]);
wire_enum!(UAAcousticSystemName, 2, Other, [(Other, 0), (ANBQQ5, 1), (ANSSQ62, 2), (ANSQS23, 3), (ANSQS26, 4), (ANSQS53, 5), (ALFS, 6), (LFA, 7), (ANAQS901, 8), (ANAQS902, 9)]);
wire_enum!(UAPassiveParameterIndex, 2, Other, [(Other, 0)]);
wire_enum!(UAStateChangeUpdateIndicator, 1, StateUpdate, [(StateUpdate, 0), (ChangedDataUpdate, 1)]);
wire_enum!(VariableParameterRecordType, 1, ArticulatedPart, [(ArticulatedPart, 0), (AttachedPart, 1), (Separation, 2), (EntityType, 3), (EntityAssociation, 4)]);
wire_enum!(VariableRecordTypes, 4, EntityIDList, [(EntityIDList, 1), (DDCPJoinTransactionJoinRequestMessage, 1001), (DDCPSetPlaybackWindowTransactionSetPlaybackWindowRequestMessage, 1002), (DDCPLoadMissionRecordingTransactionLoadMissionRecordingRequestMessage, 1003), (DDCPCueTransactionCueRequestMessage, 1004), (DDCPPlayTransactionPlayRequestMessage, 1005), (DDCPStopTransactionStopRequestMessage, 1006), (DDCPPauseTransactionPauseRequestMessage, 1007), (DDCPEndTransactionEndRequestMessage, 1009), (DDCPJoinResponseMessage, 1051), (DDCPRequestReceiptMessage, 1052), (DDCPPlaybackWindowConfirmedMessage, 1053), (DDCPMissionRecordingLoadedMessage, 1054), (DDCPCueConfirmedMessage, 1055), (DDCPTimetoCompleteMessage, 1056), (DDCPPlayCommencedMessage, 1057), (DDCPStopConfirmedMessage, 1058), (DDCPPauseConfirmedMessage, 1059), (DDCPEndResponseMessage, 1061), (DDCPMasterAnnounceMessage, 1111), (DDCPDeviceAnnounceMessage, 1112), (DDCPDeviceExitMessage, 1114), (DDCPDeviceHeartbeatMessage, 1115), (DDCPMasterTimeSyncMessage, 1116), (DDCPErrorMessage, 1118), (DDCPMasterStopSyncMessage, 1119), (DDCPMasterTransitionMessage, 1120), (MissionTime, 1200), (HighFidelityHAVEQUICKSATURNRadio, 3000), (BlankingSectorattributerecord, 3500), (AngleDeceptionattributerecord, 3501), (FalseTargetsattributerecord, 3502), (DEPrecisionAimpointrecord, 4000), (DEAreaAimpointrecord, 4001), (DirectedEnergyDamageDescriptionrecord, 4500), (CryptoControl, 5000), (Mode5STransponderLocation, 5001), (Mode5STransponderLocationError, 5002), (SquitterAirbornePositionReport, 5003), (SquitterAirborneVelocityReport, 5004), (SquitterSurfacePositionReport, 5005), (SquitterIdentificationReport, 5006), (GICB, 5007), (SquitterEventDrivenReport, 5008), (AntennaLocation, 5009), (BasicInteractive, 5010), (InteractiveMode4Reply, 5011), (InteractiveMode5Reply, 5012), (InteractiveBasicMode5, 5013), (InteractiveBasicModeS, 5014), (IOEffect, 5500), (IOCommunicationsNode, 5501), (Identification1, 10000), (TrainerInitialConditionsFilename, 10010), (Increment3_1MissionDataLoadName, 10020), (Increment2MissionDataLoadName, 10030), (SetMarkpointCommand, 10110), (MarkpointID, 10115), (ReactionLevel, 10140), (WeaponReload, 10150), (CESEntitySetClearStatus, 10157), (ActivateEntity, 10160), (DisengageReengage1, 10170), (FuelFreeze, 10190), (FireLaunchDispense, 10250), (TargetAssignment, 10254), (CICEnable, 10256), (ShootInhibit, 10258), (Posture, 10259), (JammerState, 10262), (JammerType, 10263), (DynamicTargeting, 10264), (ManualJammingOnOverride, 10267), (SOJAxis, 10268), (EmitterOverride1, 10280), (Shields1, 10290), (CrashOverride, 10300), (StopBuzzer, 10306), (TargetLasingOnOff, 10307), (TargetLasingLaserCode, 10308), (PowerPlant, 10310), (TacticalLightingOnOffControlLightControl, 10311), (TacticalLightingBlinkerControlBlinkerValue, 10312), (TacticalLightingOnOffControlLightControlType, 10313), (ParkVehicle, 10314), (SignalingOnOff, 10315), (SignalingDevice, 10316), (OwnshipID, 10400), (StateChange, 10600), (EntityType1, 11000), (Concatenated, 11100), (Kind, 11110), (Domain, 11120), (Country, 11130), (Category, 11140), (Subcategory, 11150), (Specific, 11160), (Extra, 11170), (ForceID1, 11180), (ForceID2, 11200), (Description, 11300), (TankerBoomControl, 11500), (AirportLights, 11501), (WeatherPost, 11502), (LocalizerandGlideSlope, 11503), (TACANNavAids, 11504), (AlternativeEntityType1, 12000), (Kind2, 12110), (Domain2, 12120), (Country2, 12130), (Category2, 12140), (Subcategory2, 12150), (Specific2, 12160), (Extra2, 12170), (Description2, 12300), (EntityMarking, 13000), (EntityMarkingCharacters, 13100), (CrewID, 13200), (TaskOrganization, 14000), (RegimentName, 14200), (BattalionName, 14300), (CompanyName, 14400), (PlatoonName, 14500), (SquadName, 14520), (TeamName, 14540), (BumperNumber, 14600), (VehicleNumber, 14700), (UnitNumber, 14800), (DISIdentity, 15000), (DISSiteID, 15100), (DISHostID, 15200), (DISEntityID, 15300), (MountIntent, 15400), (TetherUnthetherCommandID, 15500), (TeleportEntityDataRecord, 15510), (DISAggregateID, 15600), (OwnershipStatus, 15800), (Reconstitute, 19177), (Loads, 20000), (CrewMembers, 21000), (CrewMemberID, 21100), (Health, 21200), (JobAssignment, 21300), (Fuel, 23000), (Quantity1, 23100), (Quantity2, 23105), (Ammunition, 24000), (_120mmHEATquantity, 24001), (_120mmSABOTquantity, 24002), (_12_7mmM8quantity, 24003), (_12_7mmM20quantity, 24004), (_7_62mmM62quantity, 24005), (M250UKL8A1quantity, 24006), (M250UKL8A3quantity, 24007), (_7_62mmM80quantity, 24008), (_12_7mmquantity, 24009), (_7_62mmquantity, 24010), (Minesquantity, 24060), (Type, 24100), (Kind3, 24110), (Domain3, 24120), (Country3, 24130), (Category3, 24140), (Subcategory3, 24150), (Extra3, 24160), (Description3, 24300), (Cargo, 25000), (VehicleMass, 26000), (SupplyQuantity, 27000), (Armament, 28000), (Status, 30000), (Activateentity, 30010), (SubscriptionState, 30100), (Roundtriptimedelay, 30300), (TADILJmessagecountLabel0, 30400), (TADILJmessagecountLabel1, 30401), (TADILJmessagecountLabel2, 30402), (TADILJmessagecountLabel3, 30403), (TADILJmessagecountLabel4, 30404), (TADILJmessagecountLabel5, 30405), (TADILJmessagecountLabel6, 30406), (TADILJmessagecountLabel7, 30407), (TADILJmessagecountLabel8, 30408), (TADILJmessagecountLabel9, 30409), (TADILJmessagecountLabel10, 30410), (TADILJmessagecountLabel11, 30411), (TADILJmessagecountLabel12, 30412), (TADILJmessagecountLabel13, 30413), (TADILJmessagecountLabel14, 30414), (TADILJmessagecountLabel15, 30415), (TADILJmessagecountLabel16, 30416), (TADILJmessagecountLabel17, 30417), (TADILJmessagecountLabel18, 30418), (TADILJmessagecountLabel19, 30419), (TADILJmessagecountLabel20, 30420), (TADILJmessagecountLabel21, 30421), (TADILJmessagecountLabel22, 30422), (TADILJmessagecountLabel23, 30423), (TADILJmessagecountLabel24, 30424), (TADILJmessagecountLabel25, 30425), (TADILJmessagecountLabel26, 30426), (TADILJmessagecountLabel27, 30427), (TADILJmessagecountLabel28, 30428), (TADILJmessagecountLabel29, 30429), (TADILJmessagecountLabel30, 30430), (TADILJmessagecountLabel31, 30431), (Position, 31000), (Routetype, 31010), (MilGrid10, 31100), (GeocentricCoordinates, 31200), (X, 31210), (Y, 31220), (Z, 31230), (Latitude1, 31300), (Longitude1, 31400), (LineofSight, 31500), (X1, 31510), (Y1, 31520), (Z1, 31530), (Altitude2, 31600), (DestinationLatitude, 31700), (DestinationLongitude, 31800), (DestinationAltitude, 31900), (Orientation, 32000), (HullHeadingAngle, 32100), (HullPitchAngle, 32200), (RollAngle, 32300), (X2, 32500), (Y2, 32600), (Z2, 32700), (Appearance, 33000), (AmbientLighting, 33100), (Lights1, 33101), (PaintScheme, 33200), (Smoke, 33300), (TrailingEffects, 33400), (Flaming, 33500), (Marking, 33600), (MinePlowsAttached, 33710), (MineRollersAttached, 33720), (TankTurretAzimuth, 33730), (FailuresandMalfunctions, 34000), (Age, 34100), (Kilometers, 34110), (Damage, 35000), (Cause, 35050), (MobilityKill1, 35100), (FirePowerKill, 35200), (PersonnelCasualties, 35300), (Velocity, 36000), (Xvelocity, 36100), (Yvelocity, 36200), (Zvelocity, 36300), (Speed1, 36400), (Acceleration, 37000), (Xacceleration, 37100), (Yacceleration, 37200), (Zacceleration, 37300), (EngineStatus, 38100), (PrimaryTargetLine, 39000), (Exercise, 40000), (ExerciseState, 40010), (RestartRefresh, 40015), (AFATDSFileName, 40020), (TerrainDatabase, 41000), (Missions, 42000), (MissionID, 42100), (MissionType, 42200), (MissionRequestTimeStamp, 42300), (ExerciseDescription, 43000), (Name, 43100), (Entities, 43200), (Version, 43300), (GuiseMode, 43410), (SimulationApplicationActiveStatus, 43420), (SimulationApplicationRoleRecord, 43430), (SimulationApplicationState, 43440), (VisualOutputMode, 44000), (SimulationManagerRole, 44100), (SimulationManagerSiteID, 44110), (SimulationManagerApplicID, 44120), (SimulationManagerEntityID, 44130), (SimulationManagerActiveStatus, 44140), (AfterActiveReviewRole, 44200), (AfterActiveReviewSiteID, 44210), (AfterActiveApplicID, 44220), (AfterActiveReviewEntityID, 44230), (AfterActiveReviewActiveStatus, 44240), (ExerciseLoggerRole, 44300), (ExerciseLoggerSiteID, 44310), (ExerciseLoggerApplicID, 44320), (ExerciseEntityID, 44330), (ExerciseLoggerActiveStatus, 44340), (SyntheticEnvironmentManagerRole, 44400), (SyntheticEnvironmentManagerSiteID, 44410), (SyntheticEnvironmentManagerApplicID, 44420), (SyntheticEnvironmentManagerEntityID, 44430), (SyntheticEnvironmentManagerActiveStatus, 44440), (SIMNETDISTranslatorRole, 44500), (SIMNETDISTranslatorSiteID, 44510), (SIMNETDISTranslatorApplicID, 44520), (SIMNETDISTranslatorEntityID, 44530), (SIMNETDISTranslatorActiveStatus, 44540), (ApplicationRate, 45000), (ApplicationTime, 45005), (ApplicationTimestep, 45010), (FeedbackTime, 45020), (SimulationRate, 45030), (SimulationTime, 45040), (SimulationTimestep, 45050), (TimeInterval, 45060), (TimeLatency, 45070), (TimeScheme, 45080), (ExerciseElapsedTime, 46000), (ElapsedTime, 46010), (Environment, 50000), (ScenarioDate, 50103), (TimeDateValid, 50106), (ScenarioTime, 50118), (SnowEnableDisable, 50120), (WeatherAttributesRequest, 50124), (METHeartbeatMessage, 50126), (ContrailsEnable, 50600), (ContrailAltitudes, 50700), (Weather1, 51000), (WeatherCondition, 51010), (ThermalCondition, 51100), (ThermalVisibility1, 51110), (ThermalVisibility2, 51111), (Time1, 52000), (Time2, 52001), (TimeofDayDiscrete, 52100), (TimeofDayContinuous, 52200), (TimeMode, 52300), (TimeScene, 52305), (CurrentHour, 52310), (CurrentMinute, 52320), (CurrentSecond, 52330), (Azimuth1, 52340), (MaximumElevation, 52350), (TimeZone, 52360), (TimeRate, 52370), (TheNumberOfSimulationSecondsSinceTheStartOfTheExercise, 52380), (TimeSunriseEnabled, 52400), (SunriseHour, 52410), (SunriseMinute, 52420), (SunriseSecond, 52430), (SunriseAzimuth, 52440), (TimeSunsetEnabled, 52500), (SunsetHour1, 52510), (SunsetHour2, 52511), (SunsetMinute, 52520), (SunsetSecond, 52530), (Date1, 52600), (DateEuropean, 52601), (DateUS, 52602), (Month, 52610), (Day, 52620), (Year, 52630), (Clouds, 53000), (CloudLayerEnable, 53050), (CloudLayerSelection, 53060), (Visibility, 53100), (BaseAltitude1, 53200), (BaseAltitude2, 53250), (Ceiling1, 53300), (Ceiling2, 53350), (Characteristics, 53400), (ConcentrationLength, 53410), (Transmittance, 53420), (Radiance, 53430), (Precipitation, 54000), (Rain, 54100), (Fog, 55000), (Visibility1, 55100), (Visibility2, 55101), (Visibility3, 55105), (Density1, 55200), (Base, 55300), (ViewLayerfromabove_, 55401), (TransitionRange, 55410), (Bottom1, 55420), (Bottom2, 55425), (Ceiling3, 55430), (Ceiling4, 55435), (HeavenlyBodies, 56000), (Sun, 56100), (SunVisible, 56105), (Position1, 56110), (SunPositionElevationDegrees, 56111), (PositionAzimuth1, 56120), (SunPositionAzimuthDegrees, 56121), (PositionElevation1, 56130), (PositionIntensity1, 56140), (Moon, 56200), (MoonVisible, 56205), (Position2, 56210), (PositionAzimuth2, 56220), (MoonPositionAzimuthDegrees, 56221), (PositionElevation2, 56230), (MoonPositionElevationDegrees, 56231), (PositionIntensity2, 56240), (Horizon, 56310), (HorizonAzimuth, 56320), (HorizonElevation, 56330), (HorizonHeading, 56340), (HorizonIntensity, 56350), (Humidity, 57200), (Visibility4, 57300), (Winds, 57400), (Speed2, 57410), (WindSpeedKnots, 57411), (WindDirection1, 57420), (WindDirectionDegrees, 57421), (Rainsoak, 57500), (TideSpeed, 57610), (TideSpeedKnots, 57611), (TideDirection, 57620), (TideDirectionDegrees, 57621), (Haze, 58000), (Visibility5, 58100), (Visibility6, 58105), (Density2, 58200), (Ceiling5, 58430), (Ceiling6, 58435), (ContaminantsandObscurants, 59000), (ContaminantObscurantType, 59100), (Persistence, 59110), (ChemicalDosage, 59115), (ChemicalAirConcentration, 59120), (ChemicalGroundDeposition, 59125), (ChemicalMaximumGroundDeposition, 59130), (ChemicalDosageThreshold, 59135), (BiologicalDosage, 59140), (BiologicalAirConcentration, 59145), (BiologicalDosageThreshold, 59150), (BiologicalBinnedParticleCount, 59155), (RadiologicalDosage, 59160), (Communications, 60000), (FireBottleReload, 61005), (ChannelType1, 61100), (ChannelType2, 61101), (ChannelIdentification, 61200), (AlphaIdentification, 61300), (RadioIdentification, 61400), (LandLineIdentification, 61500), (IntercomIdentification, 61600), (GroupNetworkChannelNumber, 61700), (RadioCommunicationsStatus, 62100), (BoomInterphone, 62101), (StationaryRadioTransmittersDefaultTime, 62200), (MovingRadioTransmittersDefaultTime, 62300), (StationaryRadioSignalsDefaultTime, 62400), (MovingRadioSignalDefaultTime, 62500), (RadioInitializationTransecSecurityKey, 63101), (RadioInitializationInternalNoiseLevel, 63102), (RadioInitializationSquelchThreshold, 63103), (RadioInitializationAntennaLocation, 63104), (RadioInitializationAntennaPatternType, 63105), (RadioInitializationAntennaPatternLength, 63106), (RadioInitializationBeamDefinition, 63107), (RadioInitializationTransmitHeartbeatTime, 63108), (RadioInitializationTransmitDistanceThresholdVariableRecord, 63109), (RadioChannelInitializationLockoutID, 63110), (RadioChannelInitializationHopsetID, 63111), (RadioChannelInitializationPresetFrequency, 63112), (RadioChannelInitializationFrequencySyncTime, 63113), (RadioChannelInitializationComsecKey, 63114), (RadioChannelInitializationAlpha, 63115), (AlgorithmParameters, 70000), (DeadReckoningAlgorithm1, 71000), (DRALocationThreshold, 71100), (DRAOrientationThreshold, 71200), (DRATimeThreshold, 71300), (SimulationManagementParameters, 72000), (CheckpointInterval, 72100), (TransmitterTimeThreshold, 72600), (ReceiverTimeThreshold, 72700), (InteroperabilityMode, 73000), (SIMNETDataCollection, 74000), (EventID, 75000), (SourceSiteID, 75100), (SourceHostID, 75200), (ArticulatedParts, 90000), (PartID, 90050), (Index, 90070), (Position3, 90100), (PositionRate, 90200), (Extension, 90300), (ExtensionRate, 90400), (X3, 90500), (Xrate, 90600), (Y3, 90700), (Yrate, 90800), (Z3, 90900), (Zrate, 91000), (Azimuth2, 91100), (AzimuthRate, 91200), (Elevation, 91300), (ElevationRate, 91400), (Rotation2, 91500), (RotationRate, 91600), (DRAAngularXVelocity, 100001), (DRAAngularYVelocity, 100002), (DRAAngularZVelocity, 100003), (AppearanceTrailingEffects, 100004), (AppearanceHatch, 100005), (AppearanceCharacterSet, 100008), (CapabilityAmmunitionSupplier, 100010), (CapabilityMiscellaneousSupplier, 100011), (CapabilityRepairProvider, 100012), (ArticulationParameter, 100014), (ArticulationParameterType1, 100047), (ArticulationParameterValue1, 100048), (TimeofDayScene, 100058), (LatitudeNorth, 100061), (LongitudeEast, 100063), (TacticalDriverStatus, 100068), (SonarSystemStatus, 100100), (Accomplishedaccept, 100160), (Upperlatitude, 100161), (LatitudeSouth, 100162), (Westernlongitude, 100163), (LongitudeWest, 100164), (CDROMNumber, 100165), (DTEDdiskID, 100166), (Altitude3, 100167), (TacticalSystemStatus, 100169), (JTIDSStatus, 100170), (TADILJStatus, 100171), (DSDDStatus, 100172), (WeaponSystemStatus, 100200), (Subsystemstatus, 100205), (Numberofinterceptorsfired, 100206), (Numberofinterceptordetonations, 100207), (Numberofmessagebuffersdropped, 100208), (Satellitesensorbackground1, 100213), (Satellitesensorbackground2, 100214), (ScriptNumber, 100218), (EntityTrackUpdateData, 100300), (LocalForceTraining, 100400), (EntityTrackIdentityData, 100500), (EntityforTrackEvent, 100510), (IFFstatus, 100520), (EngagementData, 100600), (TargetLatitude, 100610), (TargetLongitude, 100620), (AreaofInterestCenterLatitude, 100631), (AreaofInterestCenterLongitude, 100632), (AreaofInterestRadius, 100633), (AreaofInterestType, 100634), (TargetAggregateID, 100640), (GICIdentificationNumber, 100650), (EstimatedTimeofFlighttoTBMImpact, 100660), (EstimatedInterceptTime, 100661), (EstimatedTimeofFlighttoNextWaypoint, 100662), (EntityTrackEquipmentData, 100700), (EmissionEWData, 100800), (AppearanceData, 100900), (CommandOrderData, 101000), (EnvironmentalData, 101100), (SignificantEventData, 101200), (OperatorActionData, 101300), (ADAEngagementMode, 101310), (ADAShootingStatus, 101320), (ADAMode, 101321), (ADARadarStatus, 101330), (ShootCommand, 101340), (ADAWeaponStatus, 101350), (ADAFiringDisciple, 101360), (OrderStatus, 101370), (TimeSynchronization, 101400), (TomahawkData, 101500), (NumberofDetonations, 102100), (NumberofIntercepts, 102200), (OBTControlMT201, 200201), (SensorDataMT202, 200202), (EnvironmentalDataMT203, 200203), (OwnshipDataMT204, 200204), (AcousticContactDataMT205, 200205), (SonobuoyDataMT207, 200207), (SonobuoyContactDataMT210, 200210), (HeloControlMT211, 200211), (ESMControlData, 200213), (ESMContactDataMT214, 200214), (ESMEmitterDataMT215, 200215), (WeaponDefinitionDataMT217, 200216), (WeaponPresetDataMT217, 200217), (OBTControlMT301, 200301), (SensorDataMT302, 200302), (EnvironmentalDataMT303m, 200303), (OwnshipDataMT304, 200304), (AcousticContactDataMT305, 200305), (SonobuoyDataMT307, 200307), (SonobuoyContactDataMT310, 200310), (HeloScenarioEquipmentStatus, 200311), (ESMControlDataMT313, 200313), (ESMContactDataMT314, 200314), (ESMEmitterDataMT315, 200315), (WeaponDefinitionDataMT316, 200316), (WeaponPresetDataMT317, 200317), (PairingAssociation, 200400), (Pointer, 200401), (ReportingResponsibility, 200402), (TrackNumber, 200403), (IDforLink11Reporting, 200404), (RemoteTrack, 200405), (Link11ErrorRate, 200406), (TrackQuality, 200407), (Gridlock, 200408), (Kill, 200409), (TrackIDChangeResolution, 200410), (WeaponsStatus, 200411), (Link11Operator, 200412), (ForceTrainingTransmit, 200413), (ForceTrainingReceive, 200414), (InterceptorAmplification1, 200415), (Consumables1, 200416), (Link11LocalTrackQuality, 200417), (DLRP, 200418), (ForceOrder, 200419), (WilcoCantco, 200420), (EMCBearing, 200421), (ChangeTrackEligibility, 200422), (LandMassReferencePoint, 200423), (SystemReferencePoint, 200424), (PUAmplification, 200425), (SetDrift, 200426), (BeginInitialization, 200427), (StatusandControl, 200428), (ScintillationChange, 200429), (Link11IDControl, 200430), (PUGuardList, 200431), (WindsAloft, 200432), (SurfaceWinds, 200433), (SeaState, 200434), (MagneticVariation, 200435), (TrackEligibility, 200436), (TrainingTrackNotification, 200437), (TacanData, 200501), (InterceptorAmplification2, 200502), (TacanAssignment, 200503), (AutopilotStatus, 200504), (Consumables2, 200505), (Downlink, 200506), (TINReport, 200507), (SpecialPointControl, 200508), (ControlDiscretes, 200509), (RequestTargetDiscretes, 200510), (TargetDiscretes, 200511), (ReplyDiscretes, 200512), (CommandManeuvers, 200513), (TargetData, 200514), (TargetPointer, 200515), (InterceptData, 200516), (DecrementMissileInventory, 200517), (Link4AAlert, 200518), (StrikeControl, 200519), (SpeedChange, 200521), (CourseChange, 200522), (AltitudeChange, 200523), (ACLSANSPN46Status, 200524), (ACLSAircraftReport, 200525), (SPS67RadarOperatorFunctions, 200600), (SPS55RadarOperatorFunctions, 200601), (SPQ9ARadarOperatorFunctions, 200602), (SPS49RadarOperatorFunctions, 200603), (MK23RadarOperatorFunctions, 200604), (SPS48RadarOperatorFunctions, 200605), (SPS40RadarOperatorFunctions, 200606), (MK95RadarOperatorFunctions, 200607), (KillNoKill, 200608), (CMTpc, 200609), (CMC4AirGlobalData, 200610), (CMC4GlobalData, 200611), (LINKSIMCOMMENTPDU, 200612), (NSSTOwnshipControl, 200613), (Other, 240000), (MassOfTheVehicle, 240001), (ForceID3, 240002), (EntityTypeKind, 240003), (EntityTypeDomain, 240004), (EntityTypeCountry, 240005), (EntityTypeCategory, 240006), (EntityTypeSubCategory, 240007), (EntityTypeSpecific, 240008), (EntityTypeExtra, 240009), (AlternativeEntityTypeKind, 240010), (AlternativeEntityTypeDomain, 240011), (AlternativeEntityTypeCountry, 240012), (AlternativeEntityTypeCategory, 240013), (AlternativeEntityTypeSubCategory, 240014), (AlternativeEntityTypeSpecific, 240015), (AlternativeEntityTypeExtra, 240016), (EntityLocationX, 240017), (EntityLocationY, 240018), (EntityLocationZ, 240019), (EntityLinearVelocityX, 240020), (EntityLinearVelocityY, 240021), (EntityLinearVelocityZ, 240022), (EntityOrientationPsi, 240023), (EntityOrientationTheta, 240024), (EntityOrientationPhi, 240025), (DeadReckoningAlgorithm2, 240026), (DeadReckoningLinearAccelerationX, 240027), (DeadReckoningLinearAccelerationY, 240028), (DeadReckoningLinearAccelerationZ, 240029), (DeadReckoningAngularVelocityX, 240030), (DeadReckoningAngularVelocityY, 240031), (DeadReckoningAngularVelocityZ, 240032), (EntityAppearance, 240033), (EntityMarkingCharacterSet, 240034), (EntityMarking11Bytes, 240035), (Capability, 240036), (NumberArticulationParameters, 240037), (ArticulationParameterID, 240038), (ArticulationParameterType2, 240039), (ArticulationParameterValue2, 240040), (TypeOfStores, 240041), (QuantityOfStores, 240042), (FuelQuantity, 240043), (RadarSystemStatus, 240044), (RadioCommunicationSystemStatus, 240045), (DefaultTimeForRadioTransmissionForStationaryTransmitters, 240046), (DefaultTimeForRadioTransmissionForMovingTransmitters, 240047), (BodyPartDamagedRatio, 240048), (NameOfTheTerrainDatabaseFile, 240049), (NameOfLocalFile, 240050), (AimpointBearing, 240051), (AimpointElevation, 240052), (AimpointRange, 240053), (AirSpeed, 240054), (Altitude, 240055), (ApplicationStatus, 240056), (AutoIff, 240057), (BeaconDelay, 240058), (BingoFuelSetting, 240059), (CloudBottom, 240060), (CloudTop, 240061), (Direction, 240062), (EndAction, 240063), (Frequency, 240064), (Freeze, 240065), (Heading, 240066), (Identification2, 240067), (InitialPointData, 240068), (Latitude2, 240069), (Lights2, 240070), (Linear, 240071), (Longitude2, 240072), (LowAltitude, 240073), (MfdFormats, 240074), (Nctr, 240075), (NumberProjectiles, 240076), (OperationCode, 240077), (Pitch, 240078), (Profiles, 240079), (Quantity3, 240080), (RadarModes, 240081), (RadarSearchVolume, 240082), (Roll, 240083), (Rotation, 240084), (ScaleFactorX, 240085), (ScaleFactorY, 240086), (Shields2, 240087), (Steerpoint, 240088), (Spare1, 240089), (Spare2, 240090), (Team, 240091), (Text, 240092), (TimeOfDay, 240093), (TrailFlag, 240094), (TrailSize, 240095), (TypeOfProjectile, 240096), (TypeOfTarget, 240097), (TypeOfThreat, 240098), (UhfFrequency, 240099), (UtmAltitude, 240100), (UtmLatitude, 240101), (UtmLongitude, 240102), (VhfFrequency, 240103), (VisibilityRange, 240104), (VoidAaaHit, 240105), (VoidCollision, 240106), (VoidEarthHit, 240107), (VoidFriendly, 240108), (VoidGunHit, 240109), (VoidRocketHit, 240110), (VoidSamHit, 240111), (WeaponData, 240112), (WeaponType, 240113), (Weather2, 240114), (WindDirection2, 240115), (WindSpeed, 240116), (WingStation, 240117), (Yaw, 240118), (MemoryOffset, 240119), (MemoryData, 240120), (VASI, 240121), (Beacon, 240122), (Strobe, 240123), (Culture, 240124), (Approach, 240125), (RunwayEnd, 240126), (Obstruction, 240127), (RunwayEdge, 240128), (RampTaxiway, 240129), (LaserBombCode, 240130), (RackType, 240131), (HUD, 240132), (RoleFileName, 240133), (PilotName, 240134), (PilotDesignation, 240135), (ModelType, 240136), (DISType, 240137), (Class, 240138), (Channel, 240139), (EntityType2, 240140), (AlternativeEntityType2, 240141), (EntityLocation, 240142), (EntityLinearVelocity, 240143), (EntityOrientation, 240144), (DeadReckoning, 240145), (FailureSymptom, 240146), (MaxFuel, 240147), (RefuelingBoomConnect, 240148), (AltitudeAGL, 240149), (CalibratedAirspeed, 240150), (TACANChannel1, 240151), (TACANBand1, 240152), (TACANMode1, 240153), (FuelFlowRate, 270115), (FuelTemperature, 270116), (FuelPressure, 270117), (SKESlot, 270150), (SKELead, 270151), (SKEFrequency, 270152), (FCICmd, 270153), (FCINum, 270154), (SKEBitField, 270155), (FormationPosition, 270156), (FormationNumber, 270157), (FFSModeActive, 270158), (FFSRole, 270159), (FFSVCAS, 270160), (FFSBitField, 270161), (FFSCallSign, 270162), (FFSGuidanceData, 270163), (FFSTextData, 270164), (FFSAirdropRequestData, 270165), (FFSAirdropData, 270166), (HorizontalCircularErrorProbable, 300000), (HorizontalPositionError, 300001), (VerticalPositionError, 300002), (HorizontalVelocityError, 300003), (VerticalVelocityError, 300004), (_4thLowestJammertoSignalRatioforP1, 300005), (_4thLowestJammertoSignalRatioforP2, 300006), (GPSFigureofMerit, 300007), (WeaponTransferGPSState, 300008), (WeaponTransferHorizontalPositionError, 300009), (WeaponTransferVerticalPositionError1, 300010), (WeaponTransferVerticalPositionError2, 300011), (WeaponTransferHorizontalVelocityError, 300012), (TimeTransferError, 300013), (AgeofEphemeris, 300014), (NonFlyoutMunitionEntityRequestDISTypeEnumeration, 300016), (NonFlyoutMunitionEntityRequestLaunchPointX, 300017), (NonFlyoutMunitionEntityRequestLaunchPointY, 300018), (NonFlyoutMunitionEntityRequestLaunchPointZ, 300019), (NonFlyoutMunitionEntityRequestMaximumAltitude, 300020), (NonFlyoutMunitionEntityRequestFlightPath, 300021), (NonFlyoutMunitionEntityRequestImpactPointX, 300022), (NonFlyoutMunitionEntityRequestImpactPointY, 300023), (NonFlyoutMunitionEntityRequestImpactPointZ, 300024), (NonFlyoutMunitionEntityRequestElapsedFlightTime, 300025), (NonFlyoutMunitionEntityRequestLaunchTime, 300026), (TimeError, 300027), (Link16CommandVariety1, 301100), (Push, 301130), (Rolex, 301140), (TerminateIntercept, 301150), (HealDamage, 301151), (Destroy, 301152), (TransferControlManagement, 301160), (Link16ControlsPPLIEnable, 301170), (Link16ControlsCommandControlEnable, 301171), (Link16ReferencePointMessageInitiation, 301174), (AssignExternalEntityLink16TrackNumber, 301175), (Link16IntelligenceInfo, 301176), (Link16TrackManagement, 301177), (Link16ControlsCESGlobalPPLIPublish, 301178), (Link16ControlsCESGlobalSurveillancePublish, 301179), (RequestGlobalLink16Configuration, 301180), (Link16ControlsSurveillanceEnable, 301181), (Link16Pointer, 301182), (Link16Vector, 301183), (Link16ControlUnitChange, 301184), (Link16Text, 301185), (RequestLink16Objects, 301186), (Link16RefObjectNameList, 301187), (TotalNumberofPDUsinLink16RefObjectsResponse, 301189), (PDUNumberinLink16RefObjectsResponse, 301190), (TotalNumberofLink16RefObjects, 301191), (Link16ControlsF2FAEnable, 301197), (Link16ControlsF2FBEnable, 301198), (STNofFormationLeader, 301199), (FormationName, 301200), (FormationRole, 301201), (SurveillanceContributorSensorBasedDetection, 301202), (F2FANPG, 301220), (Link16ControlsF2FANet, 301221), (F2FBNPG, 301222), (Link16ControlsF2FBNet, 301223), (SurveillanceEnabledNPB, 301224), (SurveillanceEnabledNet, 301225), (ControlUnitEnabled, 301226), (ControlUnitEnabledNPG, 301227), (ControlUnitEnabledNet, 301228), (VoiceFrequency, 301229), (Link16JTIDSVoiceCallsign, 301234), (EntityIDofControlUnit, 301237), (STNofControlUnit, 301238), (NTRParticipationLevel, 301239), (Link16ControlsCESGlobalPPLISubscribe, 301240), (Link16ControlsCESGlobalSurveillanceSubscribe, 301241), (NTRinMission, 301242), (NTRMarking, 301243), (NTRReceiptCompliance, 301244), (FormationF2FNPG, 301255), (FormationF2FChannel, 301256), (JLVCLogReport, 400008), (JLVCSupplyAdjust, 400009), (JLVCEntityControl, 400010), (JLVCHealthUpdate, 400011), (JLVCRepairComplete, 400012), (JLVCUnitActivation, 400013), (JLVCBattleDamageRepair, 400014), (JLVCMinefield, 400015), (JLVCWire, 400016), (JLVCAbatis, 400017), (JLVCCrater, 400018), (JLVCDitch, 400019), (JLVCLanes, 400020), (JLVCIED, 400021), (JLVCRubble, 400022), (JLVCSubmergedBarrier, 400023), (JLVCFloatingBarrier, 400024), (JLVCFoxhole, 400025), (JLVCVehicleHole, 400026), (JLVCVehicleFortification, 400027), (JLVCSandbag, 400028), (JLVCCheckpoint, 400029), (JLVCContamCloud2D, 400030), (JLVCPopulationEffect, 400031), (JLVCMine, 400032), (JLVCSeaMinefield, 400033), (Munition, 500001), (EngineFuel, 500002), (StorageFuel, 500003), (NotUsed, 500004), (Expendable, 500005), (TotalRecordSets, 500006), (LaunchedMunition, 500007), (Association, 500008), (Sensor, 500009), (MunitionReload, 500010), (EngineFuelReload, 500011), (StorageFuelReload, 500012), (ExpendableReload, 500013), (IFFChangeControlMode1Code, 500014), (IFFChangeControlMode2Code, 500015), (IFFChangeControlMode3Code, 500016), (IFFChangeControlMode4Code, 500017), (IFFChangeControlMode5Code, 500018), (IFFChangeControlMode6Code, 500019), (Link16Data, 500021), (ARMAlert, 500022), (IFFChangeControlModeOnOff, 500023), (WeaponStatusData, 500024), (ExpendableStatusData, 500025), (TacticStatusData, 500026), (EmitterSensorData, 500027), (IOSControlData, 500028), (StaticStatusData, 500029), (RequestInactiveEntities, 500200), (InactiveEntityQuantity, 500201), (InactiveEntityID, 500202), (InactiveEntityType, 500203), (ActivationTriggerType, 500204), (ActivationTriggerValue, 500205), (AirtoAirMissileQty, 551001), (AIM7MissileQty, 551002), (AIM9MissileQty, 551003), (AIM120MissileQty, 551004), (AirtoGroundMissileQty, 551005), (SurfacetoAirMissileQty, 551006), (BulletQty1, 551007), (ChaffQty, 552001), (FlareQty, 552002), (FuelLevel, 553001), (RouteType, 553002), (ThreatMode, 553003), (TargetOccluded, 553004), (TerrainHeight, 553005), (EntityStatus, 553006), (MarshalStatus, 553007), (PowerPlantStatus, 553008), (NavLightStatus, 553009), (InteriorLightStatus, 553010), (LandingLightStatus, 553011), (FormationLightStatus, 553012), (AntiCollisionLightStatus, 553013), (NavFormationFlashRate, 553014), (AntiColOnDuration, 553015), (AntiColOffDuration, 553016), (InterceptStatus, 553017), (LifeFormSignalingDeviceType, 553018), (LifeFormMovementType, 553019), (LifeFormInVehicle, 553020), (MobilityKill2, 553021), (FirepowerKill, 553022), (TankerEnabledDisabled, 553028), (ThreatStatusTacticOKtoShootDownWeapons, 553029), (TACANChannel2, 554001), (TACANBand2, 554002), (TACANMode2, 554003), (RWRStatus, 554004), (UHFRadioFrequency, 554005), (EmitJammingStatus, 554006), (EmitJammingType, 554007), (ReceiveJammingStatus, 554008), (RADARMode, 554009), (AvailableRADARModes, 554010), (JammerPodEnumeration, 554100), (JammerPodBehavior, 554101), (JammerPodPrograms, 554102), (JammerPodReceiverSensitivity, 554103), (JammerPodReceiverFrequencyMinimum, 554104), (JammerPodReceiverFrequencyMaximum, 554105), (JammerPodPower, 554106), (JammerPodVariability, 554107), (JammerPodNumberofFalseTargets, 554108), (JammerPodJammerKnob, 554109), (JammerPodMissileJamming, 554110), (EmitterOverride2, 555001), (JammerOverride, 555002), (DisengageReengage2, 555003), (HeadingOverride, 555004), (AltitudeOverride, 555005), (SpeedOverride, 555006), (VerboseOverride, 555007), (OcclusionOverride, 555008), (CommitRange, 556001), (CurrentScenarioIFFMode4ACodeforThisThreatsAffiliation, 556007), (CurrentScenarioIFFMode4BCodeforThisThreatsAffiliation, 556008), (OktoEngageWaypointNumber, 556016), (MaxSpeedatSeaLevel, 556017), (MaxSpeed, 556018), (CurrentWaypointNumber, 556019), (RouteInformation, 556020), (ThreatStatusStaticMultiTargetTrack, 556029), (AirAirIRMissileQty, 557001), (AirAirRadarMissileQty, 557002), (AirGroundIRMissileQty, 557003), (AirGroundRadarMissileQty, 557004), (AirGroundAntiRadiationMissileQty, 557005), (AirGroundBombQty, 557006), (AirGroundRocketQty, 557007), (SurfaceAirIRMissileQty, 557008), (SurfaceAirRadarMissileQty, 557009), (BulletQty2, 557010), (PPLIPublishEnabled, 559001), (SurveillancePublishEnabled, 559002), (NPG, 559003), (NPGChannel, 559004), (JTIDSTrackNumber, 559005), (Link16ControlsSurveillanceReportable, 559006), (Link16ControlsSurveillanceTrackQuality, 559007), (Link16ControlsTargetPositionQuality, 559008), (Link16ControlsQualityErrorType, 559009), (Link16ControlsAffiliationDeterminationRule, 559010), (Link16ControlsResetEntityAffiliation, 559011), (Link16ControlsResetAllAffiliation, 559012), (EndofMessages, 559999), (MalfunctionActivateDeactivateSet, 600001), (MalfunctionStatus, 600002), (RequestJTIDSTrackNumbers, 600210), (TrackNumbersvsEID, 600212), (TotalNumberofJTIDSTrackNumbers, 600214), (PDUNumberinJTIDSTrackNumberResponse, 600215), (TotalNumberofPDUsinJTIDSTrackNumberResponse, 600216), (AirtoAirRefuelerEntitiesRequest, 600218), (AirtoAirRefuelingCount, 600219), (AirToAirRefuelerEntity, 600220), (FormationLibraryRequest, 600300), (TotalNumberFormationLibraryPDUs1, 600301), (PDUNumberinFormationLibraryResponse1, 600302), (TotalNumberFormationLibraryItemsinPDU, 600303), (FormationLibraryVariable, 600304), (CreateRuntimeFormation, 600305), (FormationRequestHeader, 600306), (FormationPositionAbsolute, 600307), (FormationPositionRelative, 600308), (ExpendablesReload, 610006), (PositionFreeze, 610007), (ActivateOwnship, 610008), (Chocks, 610009), (WarmupCooldownOverride, 610010), (GroundPower, 610011), (ScrambleStart, 610012), (OwnshipasaThreat, 610013), (FuelExternal, 610015), (FuelInternal, 610016), (FuelTankTemp, 610017), (GrossWeight, 610025), (AngleOfAttack, 610026), (GLoad, 610027), (WeightOnWheels, 610029), (StoredEnergySystemReload, 610032), (KillOverride, 610035), (ExpendablesFreeze, 610036), (GPSSatellitesEnableDisable, 610037), (OwnshipMessageDisplay, 610040), (WeaponQuantityFreeze, 610042), (GlobalControlFreezeWeaponsQuantityOnAllOwnships, 610043), (GlobalControlFreezeFuelQuantityOnAllOwnships, 610044), (GlobalControlFreezeKillOverrideOnAllOwnships, 610045), (GlobalControlFreezeCrashOverrideOnAllOwnships, 610046), (OwnshipOFPBlockNumber, 610047), (WaypointInformationQuery, 610048), (WaypointInformation, 610049), (OwnshipSubsystemStatusData, 610050), (CockpitSwitchStatus, 613002), (IntegratedControlPanelMessages, 613003), (ThrottlePositions, 613004), (CurrentCriticalSwitchPosition, 613005), (CorrectCriticalSwitchPosition, 613006), (CurrentCriticalSwitchData, 613007), (CorrectCriticalSwitchData, 613008), (MissionInitialConditionsSet, 613013), (GlobalControlMalfunctionActiveonAllOwnships, 613016), (GlobalControlMalfunctionClearOnAllOwnships, 613017), (ValidatedCriticalSwitchReport, 613020), (SARMapPathname, 613021), (ValidatedCriticalSwitchOwnshipID, 613022), (LowerBoomEventReport, 613027), (RaiseBoomEventReport, 613028), (BreakawayEventReport, 613029), (CompleteEventReport, 613030), (AuxCommPanelFrequencyDisplay, 613031), (NetworkStationInformation, 615000), (GlobalControlSelectNetworkStation, 615001), (NetworkStationUnderGlobalControl, 615002), (GlobalControlStillControlling, 615003), (GlobalControlReleaseControlofNetworkStation, 615004), (GlobalControlFreezeWeaponQuantity, 615005), (GlobalControlFreezeFuelQuantity, 615006), (GlobalControlFreezeKillOverride, 615007), (GlobalControlFreezeCrashOverride, 615008), (GlobalControlMalfunctionActive, 615009), (GlobalControlMalfunctionClear, 615010), (GlobalControlStartDevices, 615011), (GlobalControlFreezeDevices, 615012), (GlobalControlJTIDSCommand, 615013), (NetworkStationICSetInformation, 615015), (GlobalControlResetICSet, 615017), (NumberofControllingUnits, 615018), (NetworkStationJTIDSControllingUnits, 615019), (NetworkStationJTIDSObjectiveTracks, 615020), (NumberofReferenceObjects, 615021), (NetworkStationJTIDSReferenceObjects, 615022), (NetworkedStationStillUnderControl, 615023), (GlobalControlDeleteThreatEntities, 615024), (NetworkStationOwnshipCallsigns, 615025), (GlobalControlRequestFormationLibraryData, 615026), (TotalNumberFormationLibraryPDUs2, 615027), (PDUNumberinFormationLibraryResponse2, 615028), (TotalNumberFormationLibraryItemsinPDUs, 615029), (NetworkStationFormationLibraryItem, 615030), (GlobalControlAddRelativeFormation, 615031), (NetworkStationTICFilename, 615032), (GlobalControlFreezeWarmupOverride, 615033), (GlobalControlReloadSES, 615034), (GlobalControlReloadWeapons, 615035), (GlobalControlReloadExpendables, 615036), (GlobalControlReloadFuel, 615037), (GlobalControlReloadFirebottle, 615038), (TestPattern, 700000), (AudioTest, 700001), (AudioTone, 700002), (CalibrateThrottles, 700003), (OperationalLimitsEventReport, 700004), (OperationalLimits, 700005), (EventMarkerMessage, 1000620), (ReceiverAircraftAeroModelData, 2000000), (TankerAircraftAeroModelData, 2000010), (BoomAircraftAeroModelData, 2000020), (AccesstoImageGeneratorData1, 2000030), (AccesstoImageGeneratorData2, 2000031), (AccesstoImageGeneratorData3, 2000032), (AccesstoImageGeneratorData4, 2000033), (AccesstoImageGeneratorData5, 2000034), (AccesstoImageGeneratorData6, 2000035), (AccesstoImageGeneratorData7, 2000036), (AccesstoImageGeneratorData8, 2000037), (AccesstoImageGeneratorData9, 2000038), (AccesstoImageGeneratorData10, 2000039), (AccesstoImageGeneratorData11, 2000040), (AccesstoImageGeneratorData12, 2000041), (AccesstoImageGeneratorData13, 2000042), (AccesstoImageGeneratorData14, 2000043), (AccesstoImageGeneratorData15, 2000044), (AccesstoImageGeneratorData16, 2000045), (HostLoadNumber, 2000050), (ExtendedFireEventReports, 5005001), (BattleDamageAssessmentEventReport, 5005002), (ExtendedFireEventLauncher, 5005003), (ExtendedFireEventMissile, 5005006), (ExtendedFireEventMRMWeapon, 5005008), (ExtendedFireEventGunFireControl, 5005009), (ExtendedFireEventBomb, 5005010), (ExtendedFireEventExpendable, 5005011), (BattleDamageAssessment, 5005012), (ExtendedFirePickleEvent, 5005014), (RadarTrackReport, 5005055), (JammerReport, 5005060), (JammerFalseTargetsReport, 5005061), (DetectEventReport, 5005063), (MALDBeamReport, 5005070), (TransmitterRadiationVolume, 5005080), (TransmitterRadiationVolumev2, 5005081), (PhysicalNetworkDefinition, 5007010), (NetworkChannelDefinition, 5007020), (LogicalNetworkDefinition, 5007030), (LogicalNetworkEntityDefinition, 5007040), (PhysicalNetworkEntityDefinition, 5007050), (C2Message, 5008010), (CandidateObject, 5008020), (SetofCandidateObjects, 5008030), (BoundedRegion, 5008040), (AngularRegion, 5008050), (RoEObject, 5008060), (TrackObject, 5008070), (SetOfTrackObjects, 5008080), (LogicalEntityDefinition, 5009010), (LogicalEntityRelationshipDefinition, 5009020), (IntentBasedEWMessage, 5507010)]);
impl Wire for AcousticBeamData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.beam_data_length = Wire::gen(g);
    v.beam_id_number = Wire::gen(g);
    v.pad2 = Wire::gen(g);
    v.fundamental_data_parameters = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.beam_data_length, w);
    Wire::enc(&self.beam_id_number, w);
    Wire::enc(&self.pad2, w);
    Wire::enc(&self.fundamental_data_parameters, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.beam_data_length = Wire::dec(r)?;
    v.beam_id_number = Wire::dec(r)?;
    v.pad2 = Wire::dec(r)?;
    v.fundamental_data_parameters = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.beam_data_length, &o.beam_data_length) { return Some(format!(".beam_data_length{d}")); }
    if let Some(d) = Wire::diff(&self.beam_id_number, &o.beam_id_number) { return Some(format!(".beam_id_number{d}")); }
    if let Some(d) = Wire::diff(&self.pad2, &o.pad2) { return Some(format!(".pad2{d}")); }
    if let Some(d) = Wire::diff(&self.fundamental_data_parameters, &o.fundamental_data_parameters) { return Some(format!(".fundamental_data_parameters{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.beam_data_length = Wire::dup(&self.beam_data_length);
    v.beam_id_number = Wire::dup(&self.beam_id_number);
    v.pad2 = Wire::dup(&self.pad2);
    v.fundamental_data_parameters = Wire::dup(&self.fundamental_data_parameters);
    v
  }
}
impl Wire for AcousticBeamFundamentalParameter {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.active_emission_parameter_index = Wire::gen(g);
    v.scan_pattern = Wire::gen(g);
    v.beam_center_azimuth = Wire::gen(g);
    v.azimuthal_beamwidth = Wire::gen(g);
    v.beam_center_de = Wire::gen(g);
    v.de_beamwidth = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.active_emission_parameter_index, w);
    Wire::enc(&self.scan_pattern, w);
    Wire::enc(&self.beam_center_azimuth, w);
    Wire::enc(&self.azimuthal_beamwidth, w);
    Wire::enc(&self.beam_center_de, w);
    Wire::enc(&self.de_beamwidth, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.active_emission_parameter_index = Wire::dec(r)?;
    v.scan_pattern = Wire::dec(r)?;
    v.beam_center_azimuth = Wire::dec(r)?;
    v.azimuthal_beamwidth = Wire::dec(r)?;
    v.beam_center_de = Wire::dec(r)?;
    v.de_beamwidth = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.active_emission_parameter_index, &o.active_emission_parameter_index) { return Some(format!(".active_emission_parameter_index{d}")); }
    if let Some(d) = Wire::diff(&self.scan_pattern, &o.scan_pattern) { return Some(format!(".scan_pattern{d}")); }
    if let Some(d) = Wire::diff(&self.beam_center_azimuth, &o.beam_center_azimuth) { return Some(format!(".beam_center_azimuth{d}")); }
    if let Some(d) = Wire::diff(&self.azimuthal_beamwidth, &o.azimuthal_beamwidth) { return Some(format!(".azimuthal_beamwidth{d}")); }
    if let Some(d) = Wire::diff(&self.beam_center_de, &o.beam_center_de) { return Some(format!(".beam_center_de{d}")); }
    if let Some(d) = Wire::diff(&self.de_beamwidth, &o.de_beamwidth) { return Some(format!(".de_beamwidth{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.active_emission_parameter_index = Wire::dup(&self.active_emission_parameter_index);
    v.scan_pattern = Wire::dup(&self.scan_pattern);
    v.beam_center_azimuth = Wire::dup(&self.beam_center_azimuth);
    v.azimuthal_beamwidth = Wire::dup(&self.azimuthal_beamwidth);
    v.beam_center_de = Wire::dup(&self.beam_center_de);
    v.de_beamwidth = Wire::dup(&self.de_beamwidth);
    v
  }
}
impl Wire for AcousticEmitterSystem {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.acoustic_name = Wire::gen(g);
    v.acoustic_function = Wire::gen(g);
    v.acoustic_id = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.acoustic_name, w);
    Wire::enc(&self.acoustic_function, w);
    Wire::enc(&self.acoustic_id, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.acoustic_name = Wire::dec(r)?;
    v.acoustic_function = Wire::dec(r)?;
    v.acoustic_id = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.acoustic_name, &o.acoustic_name) { return Some(format!(".acoustic_name{d}")); }
    if let Some(d) = Wire::diff(&self.acoustic_function, &o.acoustic_function) { return Some(format!(".acoustic_function{d}")); }
    if let Some(d) = Wire::diff(&self.acoustic_id, &o.acoustic_id) { return Some(format!(".acoustic_id{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.acoustic_name = Wire::dup(&self.acoustic_name);
    v.acoustic_function = Wire::dup(&self.acoustic_function);
    v.acoustic_id = Wire::dup(&self.acoustic_id);
    v
  }
}
impl Wire for AcousticEmitterSystemData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.emitter_system_data_length = Wire::gen(g);
    v.number_of_beams = Wire::gen(g);
    v.pad2 = Wire::gen(g);
    v.acoustic_emitter_system = Wire::gen(g);
    v.emitter_location = Wire::gen(g);
    v.beam_records = g.list(255);
    if g.consistent { v.number_of_beams = v.beam_records.len() as u8; }
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.emitter_system_data_length, w);
    w.mark_count();
    Wire::enc(&self.number_of_beams, w);
    Wire::enc(&self.pad2, w);
    Wire::enc(&self.acoustic_emitter_system, w);
    Wire::enc(&self.emitter_location, w);
    w.enter_list(); for x in &self.beam_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.emitter_system_data_length = Wire::dec(r)?;
    v.number_of_beams = Wire::dec(r)?;
    v.pad2 = Wire::dec(r)?;
    v.acoustic_emitter_system = Wire::dec(r)?;
    v.emitter_location = Wire::dec(r)?;
    v.beam_records = { let n = v.number_of_beams as u64; r.list(n)? };
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.emitter_system_data_length, &o.emitter_system_data_length) { return Some(format!(".emitter_system_data_length{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_beams, &o.number_of_beams) { return Some(format!(".number_of_beams{d}")); }
    if let Some(d) = Wire::diff(&self.pad2, &o.pad2) { return Some(format!(".pad2{d}")); }
    if let Some(d) = Wire::diff(&self.acoustic_emitter_system, &o.acoustic_emitter_system) { return Some(format!(".acoustic_emitter_system{d}")); }
    if let Some(d) = Wire::diff(&self.emitter_location, &o.emitter_location) { return Some(format!(".emitter_location{d}")); }
    if let Some(d) = Wire::diff(&self.beam_records, &o.beam_records) { return Some(format!(".beam_records{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.emitter_system_data_length = Wire::dup(&self.emitter_system_data_length);
    v.number_of_beams = Wire::dup(&self.number_of_beams);
    v.pad2 = Wire::dup(&self.pad2);
    v.acoustic_emitter_system = Wire::dup(&self.acoustic_emitter_system);
    v.emitter_location = Wire::dup(&self.emitter_location);
    v.beam_records = Wire::dup(&self.beam_records);
    v
  }
}
impl Wire for AggregateId {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.site = Wire::gen(g);
    v.application = Wire::gen(g);
    v.aggregate_id = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.site, w);
    Wire::enc(&self.application, w);
    Wire::enc(&self.aggregate_id, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.site = Wire::dec(r)?;
    v.application = Wire::dec(r)?;
    v.aggregate_id = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.site, &o.site) { return Some(format!(".site{d}")); }
    if let Some(d) = Wire::diff(&self.application, &o.application) { return Some(format!(".application{d}")); }
    if let Some(d) = Wire::diff(&self.aggregate_id, &o.aggregate_id) { return Some(format!(".aggregate_id{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.site = Wire::dup(&self.site);
    v.application = Wire::dup(&self.application);
    v.aggregate_id = Wire::dup(&self.aggregate_id);
    v
  }
}
impl Wire for AggregateMarking {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.character_set = Wire::gen(g);
    v.characters = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.character_set, w);
    Wire::enc(&self.characters, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.character_set = Wire::dec(r)?;
    v.characters = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.character_set, &o.character_set) { return Some(format!(".character_set{d}")); }
    if let Some(d) = Wire::diff(&self.characters, &o.characters) { return Some(format!(".characters{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.character_set = Wire::dup(&self.character_set);
    v.characters = Wire::dup(&self.characters);
    v
  }
}
impl Wire for AngularVelocity {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.rate_about_x_axis = Wire::gen(g);
    v.rate_about_y_axis = Wire::gen(g);
    v.rate_about_z_axis = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.rate_about_x_axis, w);
    Wire::enc(&self.rate_about_y_axis, w);
    Wire::enc(&self.rate_about_z_axis, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.rate_about_x_axis = Wire::dec(r)?;
    v.rate_about_y_axis = Wire::dec(r)?;
    v.rate_about_z_axis = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.rate_about_x_axis, &o.rate_about_x_axis) { return Some(format!(".rate_about_x_axis{d}")); }
    if let Some(d) = Wire::diff(&self.rate_about_y_axis, &o.rate_about_y_axis) { return Some(format!(".rate_about_y_axis{d}")); }
    if let Some(d) = Wire::diff(&self.rate_about_z_axis, &o.rate_about_z_axis) { return Some(format!(".rate_about_z_axis{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.rate_about_x_axis = Wire::dup(&self.rate_about_x_axis);
    v.rate_about_y_axis = Wire::dup(&self.rate_about_y_axis);
    v.rate_about_z_axis = Wire::dup(&self.rate_about_z_axis);
    v
  }
}
impl Wire for ApaData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.parameter_index = Wire::gen(g);
    v.parameter_value = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.parameter_index, w);
    Wire::enc(&self.parameter_value, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.parameter_index = Wire::dec(r)?;
    v.parameter_value = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.parameter_index, &o.parameter_index) { return Some(format!(".parameter_index{d}")); }
    if let Some(d) = Wire::diff(&self.parameter_value, &o.parameter_value) { return Some(format!(".parameter_value{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.parameter_index = Wire::dup(&self.parameter_index);
    v.parameter_value = Wire::dup(&self.parameter_value);
    v
  }
}
impl Wire for AttributeRecord {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::gen(g);
    v.record_length = Wire::gen(g);
    v.record_specific_fields = g.list(65535);
    if g.consistent { v.record_length = v.record_specific_fields.len() as u16; }
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.record_type, w);
    w.mark_count();
    Wire::enc(&self.record_length, w);
    w.enter_list(); for x in &self.record_specific_fields { Wire::enc(x, w); } w.leave_list();
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dec(r)?;
    v.record_length = Wire::dec(r)?;
    v.record_specific_fields = { let n = v.record_length as u64; r.list(n)? };
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.record_type, &o.record_type) { return Some(format!(".record_type{d}")); }
    if let Some(d) = Wire::diff(&self.record_length, &o.record_length) { return Some(format!(".record_length{d}")); }
    if let Some(d) = Wire::diff(&self.record_specific_fields, &o.record_specific_fields) { return Some(format!(".record_specific_fields{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dup(&self.record_type);
    v.record_length = Wire::dup(&self.record_length);
    v.record_specific_fields = Wire::dup(&self.record_specific_fields);
    v
  }
}
impl Wire for AttributeRecordSet {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.entity_id = Wire::gen(g);
    v.number_of_attribute_records = Wire::gen(g);
    v.attribute_records = g.list(65535);
    if g.consistent { v.number_of_attribute_records = v.attribute_records.len() as u16; }
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.entity_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_attribute_records, w);
    w.enter_list(); for x in &self.attribute_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.entity_id = Wire::dec(r)?;
    v.number_of_attribute_records = Wire::dec(r)?;
    v.attribute_records = { let n = v.number_of_attribute_records as u64; r.list(n)? };
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.entity_id, &o.entity_id) { return Some(format!(".entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_attribute_records, &o.number_of_attribute_records) { return Some(format!(".number_of_attribute_records{d}")); }
    if let Some(d) = Wire::diff(&self.attribute_records, &o.attribute_records) { return Some(format!(".attribute_records{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.entity_id = Wire::dup(&self.entity_id);
    v.number_of_attribute_records = Wire::dup(&self.number_of_attribute_records);
    v.attribute_records = Wire::dup(&self.attribute_records);
    v
  }
}
impl Wire for BeamData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.beam_azimuth_center = Wire::gen(g);
    v.beam_azimuth_sweep = Wire::gen(g);
    v.beam_elevation_center = Wire::gen(g);
    v.beam_elevation_sweep = Wire::gen(g);
    v.beam_sweep_sync = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.beam_azimuth_center, w);
    Wire::enc(&self.beam_azimuth_sweep, w);
    Wire::enc(&self.beam_elevation_center, w);
    Wire::enc(&self.beam_elevation_sweep, w);
    Wire::enc(&self.beam_sweep_sync, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.beam_azimuth_center = Wire::dec(r)?;
    v.beam_azimuth_sweep = Wire::dec(r)?;
    v.beam_elevation_center = Wire::dec(r)?;
    v.beam_elevation_sweep = Wire::dec(r)?;
    v.beam_sweep_sync = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.beam_azimuth_center, &o.beam_azimuth_center) { return Some(format!(".beam_azimuth_center{d}")); }
    if let Some(d) = Wire::diff(&self.beam_azimuth_sweep, &o.beam_azimuth_sweep) { return Some(format!(".beam_azimuth_sweep{d}")); }
    if let Some(d) = Wire::diff(&self.beam_elevation_center, &o.beam_elevation_center) { return Some(format!(".beam_elevation_center{d}")); }
    if let Some(d) = Wire::diff(&self.beam_elevation_sweep, &o.beam_elevation_sweep) { return Some(format!(".beam_elevation_sweep{d}")); }
    if let Some(d) = Wire::diff(&self.beam_sweep_sync, &o.beam_sweep_sync) { return Some(format!(".beam_sweep_sync{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.beam_azimuth_center = Wire::dup(&self.beam_azimuth_center);
    v.beam_azimuth_sweep = Wire::dup(&self.beam_azimuth_sweep);
    v.beam_elevation_center = Wire::dup(&self.beam_elevation_center);
    v.beam_elevation_sweep = Wire::dup(&self.beam_elevation_sweep);
    v.beam_sweep_sync = Wire::dup(&self.beam_sweep_sync);
    v
  }
}
impl Wire for ClockTime {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.hour = Wire::gen(g);
    v.time_past_hour = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.hour, w);
    Wire::enc(&self.time_past_hour, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.hour = Wire::dec(r)?;
    v.time_past_hour = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.hour, &o.hour) { return Some(format!(".hour{d}")); }
    if let Some(d) = Wire::diff(&self.time_past_hour, &o.time_past_hour) { return Some(format!(".time_past_hour{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.hour = Wire::dup(&self.hour);
    v.time_past_hour = Wire::dup(&self.time_past_hour);
    v
  }
}
impl Wire for FixedDatumRecord {
  fn gen(g: &mut G) -> Self {
    Self { datum_id: Wire::gen(g), datum_value: Wire::gen(g) }
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.datum_id, w);
    Wire::enc(&self.datum_value, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    Ok(Self { datum_id: Wire::dec(r)?, datum_value: Wire::dec(r)? })
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.datum_id, &o.datum_id) { return Some(format!(".datum_id{d}")); }
    if let Some(d) = Wire::diff(&self.datum_value, &o.datum_value) { return Some(format!(".datum_value{d}")); }
    None
  }
  fn dup(&self) -> Self {
    Self { datum_id: Wire::dup(&self.datum_id), datum_value: Wire::dup(&self.datum_value) }
  }
}
impl Wire for DeadReckoningParameters {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.dead_reckoning_algorithm = Wire::gen(g);
    v.dead_reckoning_other_parameters = Wire::gen(g);
    v.entity_linear_acceleration = Wire::gen(g);
    v.entity_angular_velocity = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.dead_reckoning_algorithm, w);
    Wire::enc(&self.dead_reckoning_other_parameters, w);
    Wire::enc(&self.entity_linear_acceleration, w);
    Wire::enc(&self.entity_angular_velocity, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.dead_reckoning_algorithm = Wire::dec(r)?;
    v.dead_reckoning_other_parameters = Wire::dec(r)?;
    v.entity_linear_acceleration = Wire::dec(r)?;
    v.entity_angular_velocity = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.dead_reckoning_algorithm, &o.dead_reckoning_algorithm) { return Some(format!(".dead_reckoning_algorithm{d}")); }
    if let Some(d) = Wire::diff(&self.dead_reckoning_other_parameters, &o.dead_reckoning_other_parameters) { return Some(format!(".dead_reckoning_other_parameters{d}")); }
    if let Some(d) = Wire::diff(&self.entity_linear_acceleration, &o.entity_linear_acceleration) { return Some(format!(".entity_linear_acceleration{d}")); }
    if let Some(d) = Wire::diff(&self.entity_angular_velocity, &o.entity_angular_velocity) { return Some(format!(".entity_angular_velocity{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.dead_reckoning_algorithm = Wire::dup(&self.dead_reckoning_algorithm);
    v.dead_reckoning_other_parameters = Wire::dup(&self.dead_reckoning_other_parameters);
    v.entity_linear_acceleration = Wire::dup(&self.entity_linear_acceleration);
    v.entity_angular_velocity = Wire::dup(&self.entity_angular_velocity);
    v
  }
}
impl Wire for DirectedEnergyDamage {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::gen(g);
    v.record_length = Wire::gen(g);
    v.damage_location = Wire::gen(g);
    v.damage_diameter = Wire::gen(g);
    v.temperature = Wire::gen(g);
    v.component_identification = Wire::gen(g);
    v.component_damage_status = Wire::gen(g);
    v.component_visual_damage_status = Wire::gen(g);
    v.component_visual_smoke_color = Wire::gen(g);
    v.fire_event_id = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.record_type, w);
    Wire::enc(&self.record_length, w);
    w.pad(2);
    Wire::enc(&self.damage_location, w);
    Wire::enc(&self.damage_diameter, w);
    Wire::enc(&self.temperature, w);
    Wire::enc(&self.component_identification, w);
    Wire::enc(&self.component_damage_status, w);
    Wire::enc(&self.component_visual_damage_status, w);
    Wire::enc(&self.component_visual_smoke_color, w);
    Wire::enc(&self.fire_event_id, w);
    w.pad(2);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dec(r)?;
    v.record_length = Wire::dec(r)?;
    r.skip(2)?;
    v.damage_location = Wire::dec(r)?;
    v.damage_diameter = Wire::dec(r)?;
    v.temperature = Wire::dec(r)?;
    v.component_identification = Wire::dec(r)?;
    v.component_damage_status = Wire::dec(r)?;
    v.component_visual_damage_status = Wire::dec(r)?;
    v.component_visual_smoke_color = Wire::dec(r)?;
    v.fire_event_id = Wire::dec(r)?;
    r.skip(2)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.record_type, &o.record_type) { return Some(format!(".record_type{d}")); }
    if let Some(d) = Wire::diff(&self.record_length, &o.record_length) { return Some(format!(".record_length{d}")); }
    if let Some(d) = Wire::diff(&self.damage_location, &o.damage_location) { return Some(format!(".damage_location{d}")); }
    if let Some(d) = Wire::diff(&self.damage_diameter, &o.damage_diameter) { return Some(format!(".damage_diameter{d}")); }
    if let Some(d) = Wire::diff(&self.temperature, &o.temperature) { return Some(format!(".temperature{d}")); }
    if let Some(d) = Wire::diff(&self.component_identification, &o.component_identification) { return Some(format!(".component_identification{d}")); }
    if let Some(d) = Wire::diff(&self.component_damage_status, &o.component_damage_status) { return Some(format!(".component_damage_status{d}")); }
    if let Some(d) = Wire::diff(&self.component_visual_damage_status, &o.component_visual_damage_status) { return Some(format!(".component_visual_damage_status{d}")); }
    if let Some(d) = Wire::diff(&self.component_visual_smoke_color, &o.component_visual_smoke_color) { return Some(format!(".component_visual_smoke_color{d}")); }
    if let Some(d) = Wire::diff(&self.fire_event_id, &o.fire_event_id) { return Some(format!(".fire_event_id{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dup(&self.record_type);
    v.record_length = Wire::dup(&self.record_length);
    v.damage_location = Wire::dup(&self.damage_location);
    v.damage_diameter = Wire::dup(&self.damage_diameter);
    v.temperature = Wire::dup(&self.temperature);
    v.component_identification = Wire::dup(&self.component_identification);
    v.component_damage_status = Wire::dup(&self.component_damage_status);
    v.component_visual_damage_status = Wire::dup(&self.component_visual_damage_status);
    v.component_visual_smoke_color = Wire::dup(&self.component_visual_smoke_color);
    v.fire_event_id = Wire::dup(&self.fire_event_id);
    v
  }
}
impl Wire for ElectromagneticEmissionBeamData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.beam_data_length = Wire::gen(g);
    v.beam_id_number = Wire::gen(g);
    v.beam_parameter_index = Wire::gen(g);
    v.fundamental_parameter_data = Wire::gen(g);
    v.beam_function = Wire::gen(g);
    v.number_of_track_jam_targets = Wire::gen(g);
    v.high_density_track_jam = Wire::gen(g);
    v.pad4 = Wire::gen(g);
    v.jamming_mode_sequence = Wire::gen(g);
    v.track_jam_targets = g.list(255);
    if g.consistent { v.number_of_track_jam_targets = v.track_jam_targets.len() as u8; }
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.beam_data_length, w);
    Wire::enc(&self.beam_id_number, w);
    Wire::enc(&self.beam_parameter_index, w);
    Wire::enc(&self.fundamental_parameter_data, w);
    Wire::enc(&self.beam_function, w);
    w.mark_count();
    Wire::enc(&self.number_of_track_jam_targets, w);
    Wire::enc(&self.high_density_track_jam, w);
    Wire::enc(&self.pad4, w);
    Wire::enc(&self.jamming_mode_sequence, w);
    w.enter_list(); for x in &self.track_jam_targets { Wire::enc(x, w); } w.leave_list();
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.beam_data_length = Wire::dec(r)?;
    v.beam_id_number = Wire::dec(r)?;
    v.beam_parameter_index = Wire::dec(r)?;
    v.fundamental_parameter_data = Wire::dec(r)?;
    v.beam_function = Wire::dec(r)?;
    v.number_of_track_jam_targets = Wire::dec(r)?;
    v.high_density_track_jam = Wire::dec(r)?;
    v.pad4 = Wire::dec(r)?;
    v.jamming_mode_sequence = Wire::dec(r)?;
    v.track_jam_targets = { let n = v.number_of_track_jam_targets as u64; r.list(n)? };
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.beam_data_length, &o.beam_data_length) { return Some(format!(".beam_data_length{d}")); }
    if let Some(d) = Wire::diff(&self.beam_id_number, &o.beam_id_number) { return Some(format!(".beam_id_number{d}")); }
    if let Some(d) = Wire::diff(&self.beam_parameter_index, &o.beam_parameter_index) { return Some(format!(".beam_parameter_index{d}")); }
    if let Some(d) = Wire::diff(&self.fundamental_parameter_data, &o.fundamental_parameter_data) { return Some(format!(".fundamental_parameter_data{d}")); }
    if let Some(d) = Wire::diff(&self.beam_function, &o.beam_function) { return Some(format!(".beam_function{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_track_jam_targets, &o.number_of_track_jam_targets) { return Some(format!(".number_of_track_jam_targets{d}")); }
    if let Some(d) = Wire::diff(&self.high_density_track_jam, &o.high_density_track_jam) { return Some(format!(".high_density_track_jam{d}")); }
    if let Some(d) = Wire::diff(&self.pad4, &o.pad4) { return Some(format!(".pad4{d}")); }
    if let Some(d) = Wire::diff(&self.jamming_mode_sequence, &o.jamming_mode_sequence) { return Some(format!(".jamming_mode_sequence{d}")); }
    if let Some(d) = Wire::diff(&self.track_jam_targets, &o.track_jam_targets) { return Some(format!(".track_jam_targets{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.beam_data_length = Wire::dup(&self.beam_data_length);
    v.beam_id_number = Wire::dup(&self.beam_id_number);
    v.beam_parameter_index = Wire::dup(&self.beam_parameter_index);
    v.fundamental_parameter_data = Wire::dup(&self.fundamental_parameter_data);
    v.beam_function = Wire::dup(&self.beam_function);
    v.number_of_track_jam_targets = Wire::dup(&self.number_of_track_jam_targets);
    v.high_density_track_jam = Wire::dup(&self.high_density_track_jam);
    v.pad4 = Wire::dup(&self.pad4);
    v.jamming_mode_sequence = Wire::dup(&self.jamming_mode_sequence);
    v.track_jam_targets = Wire::dup(&self.track_jam_targets);
    v
  }
}
impl Wire for ElectromagneticEmissionSystemData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.system_data_length = Wire::gen(g);
    v.number_of_beams = Wire::gen(g);
    v.emissionspadding2 = Wire::gen(g);
    v.emitter_system = Wire::gen(g);
    v.location = Wire::gen(g);
    v.beam_data_records = g.list(255);
    if g.consistent { v.number_of_beams = v.beam_data_records.len() as u8; }
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.system_data_length, w);
    w.mark_count();
    Wire::enc(&self.number_of_beams, w);
    Wire::enc(&self.emissionspadding2, w);
    Wire::enc(&self.emitter_system, w);
    Wire::enc(&self.location, w);
    w.enter_list(); for x in &self.beam_data_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.system_data_length = Wire::dec(r)?;
    v.number_of_beams = Wire::dec(r)?;
    v.emissionspadding2 = Wire::dec(r)?;
    v.emitter_system = Wire::dec(r)?;
    v.location = Wire::dec(r)?;
    v.beam_data_records = { let n = v.number_of_beams as u64; r.list(n)? };
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.system_data_length, &o.system_data_length) { return Some(format!(".system_data_length{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_beams, &o.number_of_beams) { return Some(format!(".number_of_beams{d}")); }
    if let Some(d) = Wire::diff(&self.emissionspadding2, &o.emissionspadding2) { return Some(format!(".emissionspadding2{d}")); }
    if let Some(d) = Wire::diff(&self.emitter_system, &o.emitter_system) { return Some(format!(".emitter_system{d}")); }
    if let Some(d) = Wire::diff(&self.location, &o.location) { return Some(format!(".location{d}")); }
    if let Some(d) = Wire::diff(&self.beam_data_records, &o.beam_data_records) { return Some(format!(".beam_data_records{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.system_data_length = Wire::dup(&self.system_data_length);
    v.number_of_beams = Wire::dup(&self.number_of_beams);
    v.emissionspadding2 = Wire::dup(&self.emissionspadding2);
    v.emitter_system = Wire::dup(&self.emitter_system);
    v.location = Wire::dup(&self.location);
    v.beam_data_records = Wire::dup(&self.beam_data_records);
    v
  }
}
impl Wire for EmitterSystem {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.emitter_name = Wire::gen(g);
    v.function = Wire::gen(g);
    v.emitter_id_number = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.emitter_name, w);
    Wire::enc(&self.function, w);
    Wire::enc(&self.emitter_id_number, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.emitter_name = Wire::dec(r)?;
    v.function = Wire::dec(r)?;
    v.emitter_id_number = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.emitter_name, &o.emitter_name) { return Some(format!(".emitter_name{d}")); }
    if let Some(d) = Wire::diff(&self.function, &o.function) { return Some(format!(".function{d}")); }
    if let Some(d) = Wire::diff(&self.emitter_id_number, &o.emitter_id_number) { return Some(format!(".emitter_id_number{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.emitter_name = Wire::dup(&self.emitter_name);
    v.function = Wire::dup(&self.function);
    v.emitter_id_number = Wire::dup(&self.emitter_id_number);
    v
  }
}
impl Wire for EntityCoordinateVector {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.x_coordinate = Wire::gen(g);
    v.y_coordinate = Wire::gen(g);
    v.z_coordinate = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.x_coordinate, w);
    Wire::enc(&self.y_coordinate, w);
    Wire::enc(&self.z_coordinate, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.x_coordinate = Wire::dec(r)?;
    v.y_coordinate = Wire::dec(r)?;
    v.z_coordinate = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.x_coordinate, &o.x_coordinate) { return Some(format!(".x_coordinate{d}")); }
    if let Some(d) = Wire::diff(&self.y_coordinate, &o.y_coordinate) { return Some(format!(".y_coordinate{d}")); }
    if let Some(d) = Wire::diff(&self.z_coordinate, &o.z_coordinate) { return Some(format!(".z_coordinate{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.x_coordinate = Wire::dup(&self.x_coordinate);
    v.y_coordinate = Wire::dup(&self.y_coordinate);
    v.z_coordinate = Wire::dup(&self.z_coordinate);
    v
  }
}
impl Wire for EntityId {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::gen(g);
    v.entity_id = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.simulation_address, w);
    Wire::enc(&self.entity_id, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::dec(r)?;
    v.entity_id = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.simulation_address, &o.simulation_address) { return Some(format!(".simulation_address{d}")); }
    if let Some(d) = Wire::diff(&self.entity_id, &o.entity_id) { return Some(format!(".entity_id{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::dup(&self.simulation_address);
    v.entity_id = Wire::dup(&self.entity_id);
    v
  }
}
impl Wire for EntityType {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.kind = Wire::gen(g);
    v.domain = Wire::gen(g);
    v.country = Wire::gen(g);
    v.category = Wire::gen(g);
    v.subcategory = Wire::gen(g);
    v.specific = Wire::gen(g);
    v.extra = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.kind, w);
    Wire::enc(&self.domain, w);
    Wire::enc(&self.country, w);
    Wire::enc(&self.category, w);
    Wire::enc(&self.subcategory, w);
    Wire::enc(&self.specific, w);
    Wire::enc(&self.extra, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.kind = Wire::dec(r)?;
    v.domain = Wire::dec(r)?;
    v.country = Wire::dec(r)?;
    v.category = Wire::dec(r)?;
    v.subcategory = Wire::dec(r)?;
    v.specific = Wire::dec(r)?;
    v.extra = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.kind, &o.kind) { return Some(format!(".kind{d}")); }
    if let Some(d) = Wire::diff(&self.domain, &o.domain) { return Some(format!(".domain{d}")); }
    if let Some(d) = Wire::diff(&self.country, &o.country) { return Some(format!(".country{d}")); }
    if let Some(d) = Wire::diff(&self.category, &o.category) { return Some(format!(".category{d}")); }
    if let Some(d) = Wire::diff(&self.subcategory, &o.subcategory) { return Some(format!(".subcategory{d}")); }
    if let Some(d) = Wire::diff(&self.specific, &o.specific) { return Some(format!(".specific{d}")); }
    if let Some(d) = Wire::diff(&self.extra, &o.extra) { return Some(format!(".extra{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.kind = Wire::dup(&self.kind);
    v.domain = Wire::dup(&self.domain);
    v.country = Wire::dup(&self.country);
    v.category = Wire::dup(&self.category);
    v.subcategory = Wire::dup(&self.subcategory);
    v.specific = Wire::dup(&self.specific);
    v.extra = Wire::dup(&self.extra);
    v
  }
}
impl Wire for Environment {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.environment_type = Wire::gen(g);
    v.length = Wire::gen(g);
    v.index = Wire::gen(g);
    v.padding = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.environment_type, w);
    Wire::enc(&self.length, w);
    Wire::enc(&self.index, w);
    Wire::enc(&self.padding, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.environment_type = Wire::dec(r)?;
    v.length = Wire::dec(r)?;
    v.index = Wire::dec(r)?;
    v.padding = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.environment_type, &o.environment_type) { return Some(format!(".environment_type{d}")); }
    if let Some(d) = Wire::diff(&self.length, &o.length) { return Some(format!(".length{d}")); }
    if let Some(d) = Wire::diff(&self.index, &o.index) { return Some(format!(".index{d}")); }
    if let Some(d) = Wire::diff(&self.padding, &o.padding) { return Some(format!(".padding{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.environment_type = Wire::dup(&self.environment_type);
    v.length = Wire::dup(&self.length);
    v.index = Wire::dup(&self.index);
    v.padding = Wire::dup(&self.padding);
    v
  }
}
impl Wire for EulerAngles {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.psi = Wire::gen(g);
    v.theta = Wire::gen(g);
    v.phi = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.psi, w);
    Wire::enc(&self.theta, w);
    Wire::enc(&self.phi, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.psi = Wire::dec(r)?;
    v.theta = Wire::dec(r)?;
    v.phi = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.psi, &o.psi) { return Some(format!(".psi{d}")); }
    if let Some(d) = Wire::diff(&self.theta, &o.theta) { return Some(format!(".theta{d}")); }
    if let Some(d) = Wire::diff(&self.phi, &o.phi) { return Some(format!(".phi{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.psi = Wire::dup(&self.psi);
    v.theta = Wire::dup(&self.theta);
    v.phi = Wire::dup(&self.phi);
    v
  }
}
impl Wire for EventId {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::gen(g);
    v.event_identifier = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.simulation_address, w);
    Wire::enc(&self.event_identifier, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::dec(r)?;
    v.event_identifier = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.simulation_address, &o.simulation_address) { return Some(format!(".simulation_address{d}")); }
    if let Some(d) = Wire::diff(&self.event_identifier, &o.event_identifier) { return Some(format!(".event_identifier{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::dup(&self.simulation_address);
    v.event_identifier = Wire::dup(&self.event_identifier);
    v
  }
}
impl Wire for FundamentalOperationalData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.system_status = Wire::gen(g);
    v.data_field1 = Wire::gen(g);
    v.information_layers = Wire::gen(g);
    v.data_field2 = Wire::gen(g);
    v.parameter1 = Wire::gen(g);
    v.parameter2 = Wire::gen(g);
    v.parameter3 = Wire::gen(g);
    v.parameter4 = Wire::gen(g);
    v.parameter5 = Wire::gen(g);
    v.parameter6 = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.system_status, w);
    Wire::enc(&self.data_field1, w);
    Wire::enc(&self.information_layers, w);
    Wire::enc(&self.data_field2, w);
    Wire::enc(&self.parameter1, w);
    Wire::enc(&self.parameter2, w);
    Wire::enc(&self.parameter3, w);
    Wire::enc(&self.parameter4, w);
    Wire::enc(&self.parameter5, w);
    Wire::enc(&self.parameter6, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.system_status = Wire::dec(r)?;
    v.data_field1 = Wire::dec(r)?;
    v.information_layers = Wire::dec(r)?;
    v.data_field2 = Wire::dec(r)?;
    v.parameter1 = Wire::dec(r)?;
    v.parameter2 = Wire::dec(r)?;
    v.parameter3 = Wire::dec(r)?;
    v.parameter4 = Wire::dec(r)?;
    v.parameter5 = Wire::dec(r)?;
    v.parameter6 = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.system_status, &o.system_status) { return Some(format!(".system_status{d}")); }
    if let Some(d) = Wire::diff(&self.data_field1, &o.data_field1) { return Some(format!(".data_field1{d}")); }
    if let Some(d) = Wire::diff(&self.information_layers, &o.information_layers) { return Some(format!(".information_layers{d}")); }
    if let Some(d) = Wire::diff(&self.data_field2, &o.data_field2) { return Some(format!(".data_field2{d}")); }
    if let Some(d) = Wire::diff(&self.parameter1, &o.parameter1) { return Some(format!(".parameter1{d}")); }
    if let Some(d) = Wire::diff(&self.parameter2, &o.parameter2) { return Some(format!(".parameter2{d}")); }
    if let Some(d) = Wire::diff(&self.parameter3, &o.parameter3) { return Some(format!(".parameter3{d}")); }
    if let Some(d) = Wire::diff(&self.parameter4, &o.parameter4) { return Some(format!(".parameter4{d}")); }
    if let Some(d) = Wire::diff(&self.parameter5, &o.parameter5) { return Some(format!(".parameter5{d}")); }
    if let Some(d) = Wire::diff(&self.parameter6, &o.parameter6) { return Some(format!(".parameter6{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.system_status = Wire::dup(&self.system_status);
    v.data_field1 = Wire::dup(&self.data_field1);
    v.information_layers = Wire::dup(&self.information_layers);
    v.data_field2 = Wire::dup(&self.data_field2);
    v.parameter1 = Wire::dup(&self.parameter1);
    v.parameter2 = Wire::dup(&self.parameter2);
    v.parameter3 = Wire::dup(&self.parameter3);
    v.parameter4 = Wire::dup(&self.parameter4);
    v.parameter5 = Wire::dup(&self.parameter5);
    v.parameter6 = Wire::dup(&self.parameter6);
    v
  }
}
impl Wire for FundamentalParameterData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.frequency = Wire::gen(g);
    v.frequency_range = Wire::gen(g);
    v.effective_radiated_power = Wire::gen(g);
    v.pulse_repetition_frequency = Wire::gen(g);
    v.pulse_width = Wire::gen(g);
    v.beam_azimuth_center = Wire::gen(g);
    v.beam_azimuth_sweep = Wire::gen(g);
    v.beam_elevation_center = Wire::gen(g);
    v.beam_elevation_sweep = Wire::gen(g);
    v.beam_sweep_sync = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.frequency, w);
    Wire::enc(&self.frequency_range, w);
    Wire::enc(&self.effective_radiated_power, w);
    Wire::enc(&self.pulse_repetition_frequency, w);
    Wire::enc(&self.pulse_width, w);
    Wire::enc(&self.beam_azimuth_center, w);
    Wire::enc(&self.beam_azimuth_sweep, w);
    Wire::enc(&self.beam_elevation_center, w);
    Wire::enc(&self.beam_elevation_sweep, w);
    Wire::enc(&self.beam_sweep_sync, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.frequency = Wire::dec(r)?;
    v.frequency_range = Wire::dec(r)?;
    v.effective_radiated_power = Wire::dec(r)?;
    v.pulse_repetition_frequency = Wire::dec(r)?;
    v.pulse_width = Wire::dec(r)?;
    v.beam_azimuth_center = Wire::dec(r)?;
    v.beam_azimuth_sweep = Wire::dec(r)?;
    v.beam_elevation_center = Wire::dec(r)?;
    v.beam_elevation_sweep = Wire::dec(r)?;
    v.beam_sweep_sync = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.frequency, &o.frequency) { return Some(format!(".frequency{d}")); }
    if let Some(d) = Wire::diff(&self.frequency_range, &o.frequency_range) { return Some(format!(".frequency_range{d}")); }
    if let Some(d) = Wire::diff(&self.effective_radiated_power, &o.effective_radiated_power) { return Some(format!(".effective_radiated_power{d}")); }
    if let Some(d) = Wire::diff(&self.pulse_repetition_frequency, &o.pulse_repetition_frequency) { return Some(format!(".pulse_repetition_frequency{d}")); }
    if let Some(d) = Wire::diff(&self.pulse_width, &o.pulse_width) { return Some(format!(".pulse_width{d}")); }
    if let Some(d) = Wire::diff(&self.beam_azimuth_center, &o.beam_azimuth_center) { return Some(format!(".beam_azimuth_center{d}")); }
    if let Some(d) = Wire::diff(&self.beam_azimuth_sweep, &o.beam_azimuth_sweep) { return Some(format!(".beam_azimuth_sweep{d}")); }
    if let Some(d) = Wire::diff(&self.beam_elevation_center, &o.beam_elevation_center) { return Some(format!(".beam_elevation_center{d}")); }
    if let Some(d) = Wire::diff(&self.beam_elevation_sweep, &o.beam_elevation_sweep) { return Some(format!(".beam_elevation_sweep{d}")); }
    if let Some(d) = Wire::diff(&self.beam_sweep_sync, &o.beam_sweep_sync) { return Some(format!(".beam_sweep_sync{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.frequency = Wire::dup(&self.frequency);
    v.frequency_range = Wire::dup(&self.frequency_range);
    v.effective_radiated_power = Wire::dup(&self.effective_radiated_power);
    v.pulse_repetition_frequency = Wire::dup(&self.pulse_repetition_frequency);
    v.pulse_width = Wire::dup(&self.pulse_width);
    v.beam_azimuth_center = Wire::dup(&self.beam_azimuth_center);
    v.beam_azimuth_sweep = Wire::dup(&self.beam_azimuth_sweep);
    v.beam_elevation_center = Wire::dup(&self.beam_elevation_center);
    v.beam_elevation_sweep = Wire::dup(&self.beam_elevation_sweep);
    v.beam_sweep_sync = Wire::dup(&self.beam_sweep_sync);
    v
  }
}
impl Wire for IFFFundamentalParameterData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.erp = Wire::gen(g);
    v.frequency = Wire::gen(g);
    v.pgrf = Wire::gen(g);
    v.pulse_width = Wire::gen(g);
    v.burst_length = Wire::gen(g);
    v.applicable_modes = Wire::gen(g);
    v.system_specific_data = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.erp, w);
    Wire::enc(&self.frequency, w);
    Wire::enc(&self.pgrf, w);
    Wire::enc(&self.pulse_width, w);
    Wire::enc(&self.burst_length, w);
    Wire::enc(&self.applicable_modes, w);
    Wire::enc(&self.system_specific_data, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.erp = Wire::dec(r)?;
    v.frequency = Wire::dec(r)?;
    v.pgrf = Wire::dec(r)?;
    v.pulse_width = Wire::dec(r)?;
    v.burst_length = Wire::dec(r)?;
    v.applicable_modes = Wire::dec(r)?;
    v.system_specific_data = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.erp, &o.erp) { return Some(format!(".erp{d}")); }
    if let Some(d) = Wire::diff(&self.frequency, &o.frequency) { return Some(format!(".frequency{d}")); }
    if let Some(d) = Wire::diff(&self.pgrf, &o.pgrf) { return Some(format!(".pgrf{d}")); }
    if let Some(d) = Wire::diff(&self.pulse_width, &o.pulse_width) { return Some(format!(".pulse_width{d}")); }
    if let Some(d) = Wire::diff(&self.burst_length, &o.burst_length) { return Some(format!(".burst_length{d}")); }
    if let Some(d) = Wire::diff(&self.applicable_modes, &o.applicable_modes) { return Some(format!(".applicable_modes{d}")); }
    if let Some(d) = Wire::diff(&self.system_specific_data, &o.system_specific_data) { return Some(format!(".system_specific_data{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.erp = Wire::dup(&self.erp);
    v.frequency = Wire::dup(&self.frequency);
    v.pgrf = Wire::dup(&self.pgrf);
    v.pulse_width = Wire::dup(&self.pulse_width);
    v.burst_length = Wire::dup(&self.burst_length);
    v.applicable_modes = Wire::dup(&self.applicable_modes);
    v.system_specific_data = Wire::dup(&self.system_specific_data);
    v
  }
}
impl Wire for IntercomCommunicationsParameters {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::gen(g);
    v.record_length = Wire::gen(g);
    v.record_specific_field = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.record_type, w);
    Wire::enc(&self.record_length, w);
    Wire::enc(&self.record_specific_field, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dec(r)?;
    v.record_length = Wire::dec(r)?;
    v.record_specific_field = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.record_type, &o.record_type) { return Some(format!(".record_type{d}")); }
    if let Some(d) = Wire::diff(&self.record_length, &o.record_length) { return Some(format!(".record_length{d}")); }
    if let Some(d) = Wire::diff(&self.record_specific_field, &o.record_specific_field) { return Some(format!(".record_specific_field{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dup(&self.record_type);
    v.record_length = Wire::dup(&self.record_length);
    v.record_specific_field = Wire::dup(&self.record_specific_field);
    v
  }
}
impl Wire for LayerHeader {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.layer_number = Wire::gen(g);
    v.layer_specific_information = Wire::gen(g);
    v.length = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.layer_number, w);
    Wire::enc(&self.layer_specific_information, w);
    Wire::enc(&self.length, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.layer_number = Wire::dec(r)?;
    v.layer_specific_information = Wire::dec(r)?;
    v.length = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.layer_number, &o.layer_number) { return Some(format!(".layer_number{d}")); }
    if let Some(d) = Wire::diff(&self.layer_specific_information, &o.layer_specific_information) { return Some(format!(".layer_specific_information{d}")); }
    if let Some(d) = Wire::diff(&self.length, &o.length) { return Some(format!(".length{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.layer_number = Wire::dup(&self.layer_number);
    v.layer_specific_information = Wire::dup(&self.layer_specific_information);
    v.length = Wire::dup(&self.length);
    v
  }
}
impl Wire for LinearAcceleration {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.first_vector_component = Wire::gen(g);
    v.second_vector_component = Wire::gen(g);
    v.third_vector_component = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.first_vector_component, w);
    Wire::enc(&self.second_vector_component, w);
    Wire::enc(&self.third_vector_component, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.first_vector_component = Wire::dec(r)?;
    v.second_vector_component = Wire::dec(r)?;
    v.third_vector_component = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.first_vector_component, &o.first_vector_component) { return Some(format!(".first_vector_component{d}")); }
    if let Some(d) = Wire::diff(&self.second_vector_component, &o.second_vector_component) { return Some(format!(".second_vector_component{d}")); }
    if let Some(d) = Wire::diff(&self.third_vector_component, &o.third_vector_component) { return Some(format!(".third_vector_component{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.first_vector_component = Wire::dup(&self.first_vector_component);
    v.second_vector_component = Wire::dup(&self.second_vector_component);
    v.third_vector_component = Wire::dup(&self.third_vector_component);
    v
  }
}
impl Wire for LinearSegmentParameter {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.segment_number = Wire::gen(g);
    v.segment_modification = Wire::gen(g);
    v.general_segment_appearance = Wire::gen(g);
    v.specific_segment_appearance = Wire::gen(g);
    v.segment_location = Wire::gen(g);
    v.segment_orientation = Wire::gen(g);
    v.segment_length = Wire::gen(g);
    v.segment_width = Wire::gen(g);
    v.segment_height = Wire::gen(g);
    v.segment_depth = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.segment_number, w);
    Wire::enc(&self.segment_modification, w);
    Wire::enc(&self.general_segment_appearance, w);
    Wire::enc(&self.specific_segment_appearance, w);
    Wire::enc(&self.segment_location, w);
    Wire::enc(&self.segment_orientation, w);
    Wire::enc(&self.segment_length, w);
    Wire::enc(&self.segment_width, w);
    Wire::enc(&self.segment_height, w);
    Wire::enc(&self.segment_depth, w);
    w.pad(4);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.segment_number = Wire::dec(r)?;
    v.segment_modification = Wire::dec(r)?;
    v.general_segment_appearance = Wire::dec(r)?;
    v.specific_segment_appearance = Wire::dec(r)?;
    v.segment_location = Wire::dec(r)?;
    v.segment_orientation = Wire::dec(r)?;
    v.segment_length = Wire::dec(r)?;
    v.segment_width = Wire::dec(r)?;
    v.segment_height = Wire::dec(r)?;
    v.segment_depth = Wire::dec(r)?;
    r.skip(4)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.segment_number, &o.segment_number) { return Some(format!(".segment_number{d}")); }
    if let Some(d) = Wire::diff(&self.segment_modification, &o.segment_modification) { return Some(format!(".segment_modification{d}")); }
    if let Some(d) = Wire::diff(&self.general_segment_appearance, &o.general_segment_appearance) { return Some(format!(".general_segment_appearance{d}")); }
    if let Some(d) = Wire::diff(&self.specific_segment_appearance, &o.specific_segment_appearance) { return Some(format!(".specific_segment_appearance{d}")); }
    if let Some(d) = Wire::diff(&self.segment_location, &o.segment_location) { return Some(format!(".segment_location{d}")); }
    if let Some(d) = Wire::diff(&self.segment_orientation, &o.segment_orientation) { return Some(format!(".segment_orientation{d}")); }
    if let Some(d) = Wire::diff(&self.segment_length, &o.segment_length) { return Some(format!(".segment_length{d}")); }
    if let Some(d) = Wire::diff(&self.segment_width, &o.segment_width) { return Some(format!(".segment_width{d}")); }
    if let Some(d) = Wire::diff(&self.segment_height, &o.segment_height) { return Some(format!(".segment_height{d}")); }
    if let Some(d) = Wire::diff(&self.segment_depth, &o.segment_depth) { return Some(format!(".segment_depth{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.segment_number = Wire::dup(&self.segment_number);
    v.segment_modification = Wire::dup(&self.segment_modification);
    v.general_segment_appearance = Wire::dup(&self.general_segment_appearance);
    v.specific_segment_appearance = Wire::dup(&self.specific_segment_appearance);
    v.segment_location = Wire::dup(&self.segment_location);
    v.segment_orientation = Wire::dup(&self.segment_orientation);
    v.segment_length = Wire::dup(&self.segment_length);
    v.segment_width = Wire::dup(&self.segment_width);
    v.segment_height = Wire::dup(&self.segment_height);
    v.segment_depth = Wire::dup(&self.segment_depth);
    v
  }
}
impl Wire for LinearVelocity {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.first_vector_component = Wire::gen(g);
    v.second_vector_component = Wire::gen(g);
    v.third_vector_component = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.first_vector_component, w);
    Wire::enc(&self.second_vector_component, w);
    Wire::enc(&self.third_vector_component, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.first_vector_component = Wire::dec(r)?;
    v.second_vector_component = Wire::dec(r)?;
    v.third_vector_component = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.first_vector_component, &o.first_vector_component) { return Some(format!(".first_vector_component{d}")); }
    if let Some(d) = Wire::diff(&self.second_vector_component, &o.second_vector_component) { return Some(format!(".second_vector_component{d}")); }
    if let Some(d) = Wire::diff(&self.third_vector_component, &o.third_vector_component) { return Some(format!(".third_vector_component{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.first_vector_component = Wire::dup(&self.first_vector_component);
    v.second_vector_component = Wire::dup(&self.second_vector_component);
    v.third_vector_component = Wire::dup(&self.third_vector_component);
    v
  }
}
impl Wire for MinefieldIdentifier {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::gen(g);
    v.minefield_number = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.simulation_address, w);
    Wire::enc(&self.minefield_number, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::dec(r)?;
    v.minefield_number = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.simulation_address, &o.simulation_address) { return Some(format!(".simulation_address{d}")); }
    if let Some(d) = Wire::diff(&self.minefield_number, &o.minefield_number) { return Some(format!(".minefield_number{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::dup(&self.simulation_address);
    v.minefield_number = Wire::dup(&self.minefield_number);
    v
  }
}
impl Wire for ModulationType {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.spread_spectrum = Wire::gen(g);
    v.major = Wire::gen(g);
    v.detail = Wire::gen(g);
    v.system = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.spread_spectrum, w);
    Wire::enc(&self.major, w);
    Wire::enc(&self.detail, w);
    Wire::enc(&self.system, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.spread_spectrum = Wire::dec(r)?;
    v.major = Wire::dec(r)?;
    v.detail = Wire::dec(r)?;
    v.system = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.spread_spectrum, &o.spread_spectrum) { return Some(format!(".spread_spectrum{d}")); }
    if let Some(d) = Wire::diff(&self.major, &o.major) { return Some(format!(".major{d}")); }
    if let Some(d) = Wire::diff(&self.detail, &o.detail) { return Some(format!(".detail{d}")); }
    if let Some(d) = Wire::diff(&self.system, &o.system) { return Some(format!(".system{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.spread_spectrum = Wire::dup(&self.spread_spectrum);
    v.major = Wire::dup(&self.major);
    v.detail = Wire::dup(&self.detail);
    v.system = Wire::dup(&self.system);
    v
  }
}
impl Wire for MunitionDescriptor {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.munition_type = Wire::gen(g);
    v.warhead = Wire::gen(g);
    v.fuse = Wire::gen(g);
    v.quantity = Wire::gen(g);
    v.rate = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.munition_type, w);
    Wire::enc(&self.warhead, w);
    Wire::enc(&self.fuse, w);
    Wire::enc(&self.quantity, w);
    Wire::enc(&self.rate, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.munition_type = Wire::dec(r)?;
    v.warhead = Wire::dec(r)?;
    v.fuse = Wire::dec(r)?;
    v.quantity = Wire::dec(r)?;
    v.rate = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.munition_type, &o.munition_type) { return Some(format!(".munition_type{d}")); }
    if let Some(d) = Wire::diff(&self.warhead, &o.warhead) { return Some(format!(".warhead{d}")); }
    if let Some(d) = Wire::diff(&self.fuse, &o.fuse) { return Some(format!(".fuse{d}")); }
    if let Some(d) = Wire::diff(&self.quantity, &o.quantity) { return Some(format!(".quantity{d}")); }
    if let Some(d) = Wire::diff(&self.rate, &o.rate) { return Some(format!(".rate{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.munition_type = Wire::dup(&self.munition_type);
    v.warhead = Wire::dup(&self.warhead);
    v.fuse = Wire::dup(&self.fuse);
    v.quantity = Wire::dup(&self.quantity);
    v.rate = Wire::dup(&self.rate);
    v
  }
}
impl Wire for NamedLocation {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.station_name = Wire::gen(g);
    v.station_number = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.station_name, w);
    Wire::enc(&self.station_number, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.station_name = Wire::dec(r)?;
    v.station_number = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.station_name, &o.station_name) { return Some(format!(".station_name{d}")); }
    if let Some(d) = Wire::diff(&self.station_number, &o.station_number) { return Some(format!(".station_number{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.station_name = Wire::dup(&self.station_name);
    v.station_number = Wire::dup(&self.station_number);
    v
  }
}
impl Wire for ObjectIdentifier {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::gen(g);
    v.object_number = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.simulation_address, w);
    Wire::enc(&self.object_number, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::dec(r)?;
    v.object_number = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.simulation_address, &o.simulation_address) { return Some(format!(".simulation_address{d}")); }
    if let Some(d) = Wire::diff(&self.object_number, &o.object_number) { return Some(format!(".object_number{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::dup(&self.simulation_address);
    v.object_number = Wire::dup(&self.object_number);
    v
  }
}
impl Wire for ObjectType {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.domain = Wire::gen(g);
    v.object_kind = Wire::gen(g);
    v.category = Wire::gen(g);
    v.subcategory = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.domain, w);
    Wire::enc(&self.object_kind, w);
    Wire::enc(&self.category, w);
    Wire::enc(&self.subcategory, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.domain = Wire::dec(r)?;
    v.object_kind = Wire::dec(r)?;
    v.category = Wire::dec(r)?;
    v.subcategory = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.domain, &o.domain) { return Some(format!(".domain{d}")); }
    if let Some(d) = Wire::diff(&self.object_kind, &o.object_kind) { return Some(format!(".object_kind{d}")); }
    if let Some(d) = Wire::diff(&self.category, &o.category) { return Some(format!(".category{d}")); }
    if let Some(d) = Wire::diff(&self.subcategory, &o.subcategory) { return Some(format!(".subcategory{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.domain = Wire::dup(&self.domain);
    v.object_kind = Wire::dup(&self.object_kind);
    v.category = Wire::dup(&self.category);
    v.subcategory = Wire::dup(&self.subcategory);
    v
  }
}
impl Wire for Point {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.x = Wire::gen(g);
    v.y = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.x, w);
    Wire::enc(&self.y, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.x = Wire::dec(r)?;
    v.y = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.x, &o.x) { return Some(format!(".x{d}")); }
    if let Some(d) = Wire::diff(&self.y, &o.y) { return Some(format!(".y{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.x = Wire::dup(&self.x);
    v.y = Wire::dup(&self.y);
    v
  }
}
impl Wire for PropulsionSystemData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.power_setting = Wire::gen(g);
    v.engine_rpm = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.power_setting, w);
    Wire::enc(&self.engine_rpm, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.power_setting = Wire::dec(r)?;
    v.engine_rpm = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.power_setting, &o.power_setting) { return Some(format!(".power_setting{d}")); }
    if let Some(d) = Wire::diff(&self.engine_rpm, &o.engine_rpm) { return Some(format!(".engine_rpm{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.power_setting = Wire::dup(&self.power_setting);
    v.engine_rpm = Wire::dup(&self.engine_rpm);
    v
  }
}
impl Wire for RadioEntityType {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.entity_kind = Wire::gen(g);
    v.domain = Wire::gen(g);
    v.country = Wire::gen(g);
    v.category = Wire::gen(g);
    v.nomenclature_version = Wire::gen(g);
    v.nomenclature = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.entity_kind, w);
    Wire::enc(&self.domain, w);
    Wire::enc(&self.country, w);
    Wire::enc(&self.category, w);
    Wire::enc(&self.nomenclature_version, w);
    Wire::enc(&self.nomenclature, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.entity_kind = Wire::dec(r)?;
    v.domain = Wire::dec(r)?;
    v.country = Wire::dec(r)?;
    v.category = Wire::dec(r)?;
    v.nomenclature_version = Wire::dec(r)?;
    v.nomenclature = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.entity_kind, &o.entity_kind) { return Some(format!(".entity_kind{d}")); }
    if let Some(d) = Wire::diff(&self.domain, &o.domain) { return Some(format!(".domain{d}")); }
    if let Some(d) = Wire::diff(&self.country, &o.country) { return Some(format!(".country{d}")); }
    if let Some(d) = Wire::diff(&self.category, &o.category) { return Some(format!(".category{d}")); }
    if let Some(d) = Wire::diff(&self.nomenclature_version, &o.nomenclature_version) { return Some(format!(".nomenclature_version{d}")); }
    if let Some(d) = Wire::diff(&self.nomenclature, &o.nomenclature) { return Some(format!(".nomenclature{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.entity_kind = Wire::dup(&self.entity_kind);
    v.domain = Wire::dup(&self.domain);
    v.country = Wire::dup(&self.country);
    v.category = Wire::dup(&self.category);
    v.nomenclature_version = Wire::dup(&self.nomenclature_version);
    v.nomenclature = Wire::dup(&self.nomenclature);
    v
  }
}
impl Wire for RecordSpecification {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.number_of_record_sets = Wire::gen(g);
    v.record_sets = g.list(4294967295);
    if g.consistent { v.number_of_record_sets = v.record_sets.len() as u32; }
    v
  }
  fn enc(&self, w: &mut W) {
    w.mark_count();
    Wire::enc(&self.number_of_record_sets, w);
    w.enter_list(); for x in &self.record_sets { Wire::enc(x, w); } w.leave_list();
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.number_of_record_sets = Wire::dec(r)?;
    v.record_sets = { let n = v.number_of_record_sets as u64; r.list(n)? };
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.number_of_record_sets, &o.number_of_record_sets) { return Some(format!(".number_of_record_sets{d}")); }
    if let Some(d) = Wire::diff(&self.record_sets, &o.record_sets) { return Some(format!(".record_sets{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.number_of_record_sets = Wire::dup(&self.number_of_record_sets);
    v.record_sets = Wire::dup(&self.record_sets);
    v
  }
}
impl Wire for Relationship {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.nature = Wire::gen(g);
    v.position = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.nature, w);
    Wire::enc(&self.position, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.nature = Wire::dec(r)?;
    v.position = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.nature, &o.nature) { return Some(format!(".nature{d}")); }
    if let Some(d) = Wire::diff(&self.position, &o.position) { return Some(format!(".position{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.nature = Wire::dup(&self.nature);
    v.position = Wire::dup(&self.position);
    v
  }
}
impl Wire for SecondaryOperationalData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.operational_data1 = Wire::gen(g);
    v.operational_data2 = Wire::gen(g);
    v.number_of_iff_fundamental_parameter_records = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.operational_data1, w);
    Wire::enc(&self.operational_data2, w);
    Wire::enc(&self.number_of_iff_fundamental_parameter_records, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.operational_data1 = Wire::dec(r)?;
    v.operational_data2 = Wire::dec(r)?;
    v.number_of_iff_fundamental_parameter_records = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.operational_data1, &o.operational_data1) { return Some(format!(".operational_data1{d}")); }
    if let Some(d) = Wire::diff(&self.operational_data2, &o.operational_data2) { return Some(format!(".operational_data2{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_iff_fundamental_parameter_records, &o.number_of_iff_fundamental_parameter_records) { return Some(format!(".number_of_iff_fundamental_parameter_records{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.operational_data1 = Wire::dup(&self.operational_data1);
    v.operational_data2 = Wire::dup(&self.operational_data2);
    v.number_of_iff_fundamental_parameter_records = Wire::dup(&self.number_of_iff_fundamental_parameter_records);
    v
  }
}
impl Wire for ShaftRPMs {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.current_shaft_rpms = Wire::gen(g);
    v.ordered_shaft_rpms = Wire::gen(g);
    v.shaft_rpm_rate_of_change = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.current_shaft_rpms, w);
    Wire::enc(&self.ordered_shaft_rpms, w);
    Wire::enc(&self.shaft_rpm_rate_of_change, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.current_shaft_rpms = Wire::dec(r)?;
    v.ordered_shaft_rpms = Wire::dec(r)?;
    v.shaft_rpm_rate_of_change = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.current_shaft_rpms, &o.current_shaft_rpms) { return Some(format!(".current_shaft_rpms{d}")); }
    if let Some(d) = Wire::diff(&self.ordered_shaft_rpms, &o.ordered_shaft_rpms) { return Some(format!(".ordered_shaft_rpms{d}")); }
    if let Some(d) = Wire::diff(&self.shaft_rpm_rate_of_change, &o.shaft_rpm_rate_of_change) { return Some(format!(".shaft_rpm_rate_of_change{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.current_shaft_rpms = Wire::dup(&self.current_shaft_rpms);
    v.ordered_shaft_rpms = Wire::dup(&self.ordered_shaft_rpms);
    v.shaft_rpm_rate_of_change = Wire::dup(&self.shaft_rpm_rate_of_change);
    v
  }
}
impl Wire for SimulationAddress {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.site_id = Wire::gen(g);
    v.application_id = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.site_id, w);
    Wire::enc(&self.application_id, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.site_id = Wire::dec(r)?;
    v.application_id = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.site_id, &o.site_id) { return Some(format!(".site_id{d}")); }
    if let Some(d) = Wire::diff(&self.application_id, &o.application_id) { return Some(format!(".application_id{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.site_id = Wire::dup(&self.site_id);
    v.application_id = Wire::dup(&self.application_id);
    v
  }
}
impl Wire for SimulationIdentifier {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::gen(g);
    v.reference_number = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.simulation_address, w);
    Wire::enc(&self.reference_number, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::dec(r)?;
    v.reference_number = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.simulation_address, &o.simulation_address) { return Some(format!(".simulation_address{d}")); }
    if let Some(d) = Wire::diff(&self.reference_number, &o.reference_number) { return Some(format!(".reference_number{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.simulation_address = Wire::dup(&self.simulation_address);
    v.reference_number = Wire::dup(&self.reference_number);
    v
  }
}
impl Wire for StandardVariableRecords {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::gen(g);
    v.record_length = Wire::gen(g);
    v.record_specific_fields = g.list(65535);
    if g.consistent { v.record_length = v.record_specific_fields.len() as u16; }
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.record_type, w);
    w.mark_count();
    Wire::enc(&self.record_length, w);
    w.enter_list(); for x in &self.record_specific_fields { Wire::enc(x, w); } w.leave_list();
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dec(r)?;
    v.record_length = Wire::dec(r)?;
    v.record_specific_fields = { let n = v.record_length as u64; r.list(n)? };
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.record_type, &o.record_type) { return Some(format!(".record_type{d}")); }
    if let Some(d) = Wire::diff(&self.record_length, &o.record_length) { return Some(format!(".record_length{d}")); }
    if let Some(d) = Wire::diff(&self.record_specific_fields, &o.record_specific_fields) { return Some(format!(".record_specific_fields{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dup(&self.record_type);
    v.record_length = Wire::dup(&self.record_length);
    v.record_specific_fields = Wire::dup(&self.record_specific_fields);
    v
  }
}
impl Wire for StandardVariableSpecification {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.number_of_standard_variable_records = Wire::gen(g);
    v.standard_variable_records = g.list(65535);
    if g.consistent { v.number_of_standard_variable_records = v.standard_variable_records.len() as u16; }
    v
  }
  fn enc(&self, w: &mut W) {
    w.mark_count();
    Wire::enc(&self.number_of_standard_variable_records, w);
    w.enter_list(); for x in &self.standard_variable_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.number_of_standard_variable_records = Wire::dec(r)?;
    v.standard_variable_records = { let n = v.number_of_standard_variable_records as u64; r.list(n)? };
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.number_of_standard_variable_records, &o.number_of_standard_variable_records) { return Some(format!(".number_of_standard_variable_records{d}")); }
    if let Some(d) = Wire::diff(&self.standard_variable_records, &o.standard_variable_records) { return Some(format!(".standard_variable_records{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.number_of_standard_variable_records = Wire::dup(&self.number_of_standard_variable_records);
    v.standard_variable_records = Wire::dup(&self.standard_variable_records);
    v
  }
}
impl Wire for SupplyQuantity {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.supply_type = Wire::gen(g);
    v.quantity = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.supply_type, w);
    Wire::enc(&self.quantity, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.supply_type = Wire::dec(r)?;
    v.quantity = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.supply_type, &o.supply_type) { return Some(format!(".supply_type{d}")); }
    if let Some(d) = Wire::diff(&self.quantity, &o.quantity) { return Some(format!(".quantity{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.supply_type = Wire::dup(&self.supply_type);
    v.quantity = Wire::dup(&self.quantity);
    v
  }
}
impl Wire for SystemId {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.system_type = Wire::gen(g);
    v.system_name = Wire::gen(g);
    v.system_mode = Wire::gen(g);
    v.change_options = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.system_type, w);
    Wire::enc(&self.system_name, w);
    Wire::enc(&self.system_mode, w);
    Wire::enc(&self.change_options, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.system_type = Wire::dec(r)?;
    v.system_name = Wire::dec(r)?;
    v.system_mode = Wire::dec(r)?;
    v.change_options = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.system_type, &o.system_type) { return Some(format!(".system_type{d}")); }
    if let Some(d) = Wire::diff(&self.system_name, &o.system_name) { return Some(format!(".system_name{d}")); }
    if let Some(d) = Wire::diff(&self.system_mode, &o.system_mode) { return Some(format!(".system_mode{d}")); }
    if let Some(d) = Wire::diff(&self.change_options, &o.change_options) { return Some(format!(".change_options{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.system_type = Wire::dup(&self.system_type);
    v.system_name = Wire::dup(&self.system_name);
    v.system_mode = Wire::dup(&self.system_mode);
    v.change_options = Wire::dup(&self.change_options);
    v
  }
}
impl Wire for TrackJamTarget {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.track_jam = Wire::gen(g);
    v.emitter_id = Wire::gen(g);
    v.beam_id = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.track_jam, w);
    Wire::enc(&self.emitter_id, w);
    Wire::enc(&self.beam_id, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.track_jam = Wire::dec(r)?;
    v.emitter_id = Wire::dec(r)?;
    v.beam_id = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.track_jam, &o.track_jam) { return Some(format!(".track_jam{d}")); }
    if let Some(d) = Wire::diff(&self.emitter_id, &o.emitter_id) { return Some(format!(".emitter_id{d}")); }
    if let Some(d) = Wire::diff(&self.beam_id, &o.beam_id) { return Some(format!(".beam_id{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.track_jam = Wire::dup(&self.track_jam);
    v.emitter_id = Wire::dup(&self.emitter_id);
    v.beam_id = Wire::dup(&self.beam_id);
    v
  }
}
impl Wire for VariableParameter {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::gen(g);
    v.variable_parameter_field1 = Wire::gen(g);
    v.variable_parameter_field2 = Wire::gen(g);
    v.variable_parameter_field3 = Wire::gen(g);
    v.variable_parameter_field4 = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.record_type, w);
    Wire::enc(&self.variable_parameter_field1, w);
    Wire::enc(&self.variable_parameter_field2, w);
    Wire::enc(&self.variable_parameter_field3, w);
    Wire::enc(&self.variable_parameter_field4, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dec(r)?;
    v.variable_parameter_field1 = Wire::dec(r)?;
    v.variable_parameter_field2 = Wire::dec(r)?;
    v.variable_parameter_field3 = Wire::dec(r)?;
    v.variable_parameter_field4 = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.record_type, &o.record_type) { return Some(format!(".record_type{d}")); }
    if let Some(d) = Wire::diff(&self.variable_parameter_field1, &o.variable_parameter_field1) { return Some(format!(".variable_parameter_field1{d}")); }
    if let Some(d) = Wire::diff(&self.variable_parameter_field2, &o.variable_parameter_field2) { return Some(format!(".variable_parameter_field2{d}")); }
    if let Some(d) = Wire::diff(&self.variable_parameter_field3, &o.variable_parameter_field3) { return Some(format!(".variable_parameter_field3{d}")); }
    if let Some(d) = Wire::diff(&self.variable_parameter_field4, &o.variable_parameter_field4) { return Some(format!(".variable_parameter_field4{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dup(&self.record_type);
    v.variable_parameter_field1 = Wire::dup(&self.variable_parameter_field1);
    v.variable_parameter_field2 = Wire::dup(&self.variable_parameter_field2);
    v.variable_parameter_field3 = Wire::dup(&self.variable_parameter_field3);
    v.variable_parameter_field4 = Wire::dup(&self.variable_parameter_field4);
    v
  }
}
impl Wire for VariableTransmitterParameters {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::gen(g);
    v.record_length = Wire::gen(g);
    v.record_specific_fields = g.list(65535);
    if g.consistent { v.record_length = v.record_specific_fields.len() as u16; }
    v
  }
  fn enc(&self, w: &mut W) {
    enc_wide(&self.record_type, w, 4);
    w.mark_count();
    Wire::enc(&self.record_length, w);
    w.enter_list(); for x in &self.record_specific_fields { Wire::enc(x, w); } w.leave_list();
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.record_type = dec_wide(r, 4)?;
    v.record_length = Wire::dec(r)?;
    v.record_specific_fields = { let n = v.record_length as u64; r.list(n)? };
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.record_type, &o.record_type) { return Some(format!(".record_type{d}")); }
    if let Some(d) = Wire::diff(&self.record_length, &o.record_length) { return Some(format!(".record_length{d}")); }
    if let Some(d) = Wire::diff(&self.record_specific_fields, &o.record_specific_fields) { return Some(format!(".record_specific_fields{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.record_type = Wire::dup(&self.record_type);
    v.record_length = Wire::dup(&self.record_length);
    v.record_specific_fields = Wire::dup(&self.record_specific_fields);
    v
  }
}
impl Wire for Vector3Double {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.x = Wire::gen(g);
    v.y = Wire::gen(g);
    v.z = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.x, w);
    Wire::enc(&self.y, w);
    Wire::enc(&self.z, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.x = Wire::dec(r)?;
    v.y = Wire::dec(r)?;
    v.z = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.x, &o.x) { return Some(format!(".x{d}")); }
    if let Some(d) = Wire::diff(&self.y, &o.y) { return Some(format!(".y{d}")); }
    if let Some(d) = Wire::diff(&self.z, &o.z) { return Some(format!(".z{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.x = Wire::dup(&self.x);
    v.y = Wire::dup(&self.y);
    v.z = Wire::dup(&self.z);
    v
  }
}
impl Wire for Vector3Float {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.x = Wire::gen(g);
    v.y = Wire::gen(g);
    v.z = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.x, w);
    Wire::enc(&self.y, w);
    Wire::enc(&self.z, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.x = Wire::dec(r)?;
    v.y = Wire::dec(r)?;
    v.z = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.x, &o.x) { return Some(format!(".x{d}")); }
    if let Some(d) = Wire::diff(&self.y, &o.y) { return Some(format!(".y{d}")); }
    if let Some(d) = Wire::diff(&self.z, &o.z) { return Some(format!(".z{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.x = Wire::dup(&self.x);
    v.y = Wire::dup(&self.y);
    v.z = Wire::dup(&self.z);
    v
  }
}
impl Wire for VectoringNozzleSystemData {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.horizontal_deflection_angle = Wire::gen(g);
    v.vertical_deflection_angle = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.horizontal_deflection_angle, w);
    Wire::enc(&self.vertical_deflection_angle, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.horizontal_deflection_angle = Wire::dec(r)?;
    v.vertical_deflection_angle = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.horizontal_deflection_angle, &o.horizontal_deflection_angle) { return Some(format!(".horizontal_deflection_angle{d}")); }
    if let Some(d) = Wire::diff(&self.vertical_deflection_angle, &o.vertical_deflection_angle) { return Some(format!(".vertical_deflection_angle{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.horizontal_deflection_angle = Wire::dup(&self.horizontal_deflection_angle);
    v.vertical_deflection_angle = Wire::dup(&self.vertical_deflection_angle);
    v
  }
}
impl Wire for VelocityVector {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.first_vector_component = Wire::gen(g);
    v.second_vector_component = Wire::gen(g);
    v.third_vector_component = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.first_vector_component, w);
    Wire::enc(&self.second_vector_component, w);
    Wire::enc(&self.third_vector_component, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.first_vector_component = Wire::dec(r)?;
    v.second_vector_component = Wire::dec(r)?;
    v.third_vector_component = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.first_vector_component, &o.first_vector_component) { return Some(format!(".first_vector_component{d}")); }
    if let Some(d) = Wire::diff(&self.second_vector_component, &o.second_vector_component) { return Some(format!(".second_vector_component{d}")); }
    if let Some(d) = Wire::diff(&self.third_vector_component, &o.third_vector_component) { return Some(format!(".third_vector_component{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.first_vector_component = Wire::dup(&self.first_vector_component);
    v.second_vector_component = Wire::dup(&self.second_vector_component);
    v.third_vector_component = Wire::dup(&self.third_vector_component);
    v
  }
}
impl Wire for WorldCoordinate {
  fn gen(g: &mut G) -> Self {
    let mut v = <Self as Default>::default();
    v.x = Wire::gen(g);
    v.y = Wire::gen(g);
    v.z = Wire::gen(g);
    v
  }
  fn enc(&self, w: &mut W) {
    Wire::enc(&self.x, w);
    Wire::enc(&self.y, w);
    Wire::enc(&self.z, w);
  }
  fn dec(r: &mut R) -> Result<Self, Short> {
    let mut v = <Self as Default>::default();
    v.x = Wire::dec(r)?;
    v.y = Wire::dec(r)?;
    v.z = Wire::dec(r)?;
    Ok(v)
  }
  fn diff(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.x, &o.x) { return Some(format!(".x{d}")); }
    if let Some(d) = Wire::diff(&self.y, &o.y) { return Some(format!(".y{d}")); }
    if let Some(d) = Wire::diff(&self.z, &o.z) { return Some(format!(".z{d}")); }
    None
  }
  fn dup(&self) -> Self {
    let mut v = <Self as Default>::default();
    v.x = Wire::dup(&self.x);
    v.y = Wire::dup(&self.y);
    v.z = Wire::dup(&self.z);
    v
  }
}
impl Rec for AcousticBeamData { const NAME: &'static str = "AcousticBeamData"; const FIXED: Option<usize> = Some(25);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
}
impl Rec for AcousticBeamFundamentalParameter { const NAME: &'static str = "AcousticBeamFundamentalParameter"; const FIXED: Option<usize> = Some(20);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
}
impl Rec for AcousticEmitterSystem { const NAME: &'static str = "AcousticEmitterSystem"; const FIXED: Option<usize> = Some(4);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for AcousticEmitterSystemData { const NAME: &'static str = "AcousticEmitterSystemData"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
}
impl Rec for AggregateId { const NAME: &'static str = "AggregateId"; const FIXED: Option<usize> = Some(6);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for AggregateMarking { const NAME: &'static str = "AggregateMarking"; const FIXED: Option<usize> = Some(32);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for AngularVelocity { const NAME: &'static str = "AngularVelocity"; const FIXED: Option<usize> = Some(12);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for ApaData { const NAME: &'static str = "ApaData"; const FIXED: Option<usize> = Some(4);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for AttributeRecord { const NAME: &'static str = "AttributeRecord"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for AttributeRecordSet { const NAME: &'static str = "AttributeRecordSet"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for BeamData { const NAME: &'static str = "BeamData"; const FIXED: Option<usize> = Some(20);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for ClockTime { const NAME: &'static str = "ClockTime"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for FixedDatumRecord { const NAME: &'static str = "FixedDatumRecord"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for DeadReckoningParameters { const NAME: &'static str = "DeadReckoningParameters"; const FIXED: Option<usize> = Some(40);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for DirectedEnergyDamage { const NAME: &'static str = "DirectedEnergyDamage"; const FIXED: Option<usize> = Some(40);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for ElectromagneticEmissionBeamData { const NAME: &'static str = "ElectromagneticEmissionBeamData"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for ElectromagneticEmissionSystemData { const NAME: &'static str = "ElectromagneticEmissionSystemData"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for EmitterSystem { const NAME: &'static str = "EmitterSystem"; const FIXED: Option<usize> = Some(4);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for EntityCoordinateVector { const NAME: &'static str = "EntityCoordinateVector"; const FIXED: Option<usize> = Some(12);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for EntityId { const NAME: &'static str = "EntityId"; const FIXED: Option<usize> = Some(6);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for EntityType { const NAME: &'static str = "EntityType"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for Environment { const NAME: &'static str = "Environment"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for EulerAngles { const NAME: &'static str = "EulerAngles"; const FIXED: Option<usize> = Some(12);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for EventId { const NAME: &'static str = "EventId"; const FIXED: Option<usize> = Some(6);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for FundamentalOperationalData { const NAME: &'static str = "FundamentalOperationalData"; const FIXED: Option<usize> = Some(16);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for FundamentalParameterData { const NAME: &'static str = "FundamentalParameterData"; const FIXED: Option<usize> = Some(40);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for IFFFundamentalParameterData { const NAME: &'static str = "IFFFundamentalParameterData"; const FIXED: Option<usize> = Some(24);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for IntercomCommunicationsParameters { const NAME: &'static str = "IntercomCommunicationsParameters"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for LayerHeader { const NAME: &'static str = "LayerHeader"; const FIXED: Option<usize> = Some(4);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for LinearAcceleration { const NAME: &'static str = "LinearAcceleration"; const FIXED: Option<usize> = Some(12);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for LinearSegmentParameter { const NAME: &'static str = "LinearSegmentParameter"; const FIXED: Option<usize> = Some(66);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for LinearVelocity { const NAME: &'static str = "LinearVelocity"; const FIXED: Option<usize> = Some(12);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for MinefieldIdentifier { const NAME: &'static str = "MinefieldIdentifier"; const FIXED: Option<usize> = Some(6);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for ModulationType { const NAME: &'static str = "ModulationType"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for MunitionDescriptor { const NAME: &'static str = "MunitionDescriptor"; const FIXED: Option<usize> = Some(16);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for NamedLocation { const NAME: &'static str = "NamedLocation"; const FIXED: Option<usize> = Some(4);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for ObjectIdentifier { const NAME: &'static str = "ObjectIdentifier"; const FIXED: Option<usize> = Some(6);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for ObjectType { const NAME: &'static str = "ObjectType"; const FIXED: Option<usize> = Some(4);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for Point { const NAME: &'static str = "Point"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for PropulsionSystemData { const NAME: &'static str = "PropulsionSystemData"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for RadioEntityType { const NAME: &'static str = "RadioEntityType"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for RecordSpecification { const NAME: &'static str = "RecordSpecification"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for Relationship { const NAME: &'static str = "Relationship"; const FIXED: Option<usize> = Some(4);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for SecondaryOperationalData { const NAME: &'static str = "SecondaryOperationalData"; const FIXED: Option<usize> = Some(4);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for ShaftRPMs { const NAME: &'static str = "ShaftRPMs"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for SimulationAddress { const NAME: &'static str = "SimulationAddress"; const FIXED: Option<usize> = Some(4);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for SimulationIdentifier { const NAME: &'static str = "SimulationIdentifier"; const FIXED: Option<usize> = Some(6);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for StandardVariableRecords { const NAME: &'static str = "StandardVariableRecords"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for StandardVariableSpecification { const NAME: &'static str = "StandardVariableSpecification"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for SupplyQuantity { const NAME: &'static str = "SupplyQuantity"; const FIXED: Option<usize> = Some(12);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for SystemId { const NAME: &'static str = "SystemId"; const FIXED: Option<usize> = Some(6);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for TrackJamTarget { const NAME: &'static str = "TrackJamTarget"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for VariableParameter { const NAME: &'static str = "VariableParameter"; const FIXED: Option<usize> = Some(16);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for VariableTransmitterParameters { const NAME: &'static str = "VariableTransmitterParameters"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for Vector3Double { const NAME: &'static str = "Vector3Double"; const FIXED: Option<usize> = Some(24);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for Vector3Float { const NAME: &'static str = "Vector3Float"; const FIXED: Option<usize> = Some(12);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for VectoringNozzleSystemData { const NAME: &'static str = "VectoringNozzleSystemData"; const FIXED: Option<usize> = Some(8);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for VelocityVector { const NAME: &'static str = "VelocityVector"; const FIXED: Option<usize> = Some(12);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
}
impl Rec for WorldCoordinate { const NAME: &'static str = "WorldCoordinate"; const FIXED: Option<usize> = Some(24);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for VariableDatumRecord { const NAME: &'static str = "VariableDatumRecord"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for EntityMarking { const NAME: &'static str = "EntityMarking"; const FIXED: Option<usize> = Some(12);
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
  fn slen() -> Option<usize> { Some(<Self as SerializedLength>::LENGTH) }
}
impl Rec for GridAxisDescriptor { const NAME: &'static str = "GridAxisDescriptor"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for GridDataRecord { const NAME: &'static str = "GridDataRecord"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
impl Rec for RecordSpecificationElement { const NAME: &'static str = "RecordSpecificationElement"; const FIXED: Option<usize> = None;
  fn ser(&self, b: &mut BytesMut) { self.serialize(b) }
  fn de(b: &mut &mut dyn Buf) -> Self { Self::deserialize(b) }
  fn copied(&self) -> Option<Self> { (&Probe(self)).copied() }
  fn equals(&self, o: &Self) -> Option<(bool, bool)> { (&Probe(self)).equals(o) }
  fn fser(&self, b: &mut BytesMut) -> bool { FieldSerialize::serialize_field(self, b); true }
  fn fde(b: &mut &mut dyn Buf) -> Option<Self> { Some(<Self as FieldDeserialize>::deserialize_field(b)) }
  fn flen(&self) -> Option<usize> { Some(FieldLen::field_len(self)) }
}
pub fn records() -> Vec<Box<dyn DynRec>> { vec![
  Box::new(RecOf::<AcousticBeamData>::new()),
  Box::new(RecOf::<AcousticBeamFundamentalParameter>::new()),
  Box::new(RecOf::<AcousticEmitterSystem>::new()),
  Box::new(RecOf::<AcousticEmitterSystemData>::new()),
  Box::new(RecOf::<AggregateId>::new()),
  Box::new(RecOf::<AggregateMarking>::new()),
  Box::new(RecOf::<AngularVelocity>::new()),
  Box::new(RecOf::<ApaData>::new()),
  Box::new(RecOf::<AttributeRecord>::new()),
  Box::new(RecOf::<AttributeRecordSet>::new()),
  Box::new(RecOf::<BeamData>::new()),
  Box::new(RecOf::<ClockTime>::new()),
  Box::new(RecOf::<FixedDatumRecord>::new()),
  Box::new(RecOf::<DeadReckoningParameters>::new()),
  Box::new(RecOf::<DirectedEnergyDamage>::new()),
  Box::new(RecOf::<ElectromagneticEmissionBeamData>::new()),
  Box::new(RecOf::<ElectromagneticEmissionSystemData>::new()),
  Box::new(RecOf::<EmitterSystem>::new()),
  Box::new(RecOf::<EntityCoordinateVector>::new()),
  Box::new(RecOf::<EntityId>::new()),
  Box::new(RecOf::<EntityType>::new()),
  Box::new(RecOf::<Environment>::new()),
  Box::new(RecOf::<EulerAngles>::new()),
  Box::new(RecOf::<EventId>::new()),
  Box::new(RecOf::<FundamentalOperationalData>::new()),
  Box::new(RecOf::<FundamentalParameterData>::new()),
  Box::new(RecOf::<IFFFundamentalParameterData>::new()),
  Box::new(RecOf::<IntercomCommunicationsParameters>::new()),
  Box::new(RecOf::<LayerHeader>::new()),
  Box::new(RecOf::<LinearAcceleration>::new()),
  Box::new(RecOf::<LinearSegmentParameter>::new()),
  Box::new(RecOf::<LinearVelocity>::new()),
  Box::new(RecOf::<MinefieldIdentifier>::new()),
  Box::new(RecOf::<ModulationType>::new()),
  Box::new(RecOf::<MunitionDescriptor>::new()),
  Box::new(RecOf::<NamedLocation>::new()),
  Box::new(RecOf::<ObjectIdentifier>::new()),
  Box::new(RecOf::<ObjectType>::new()),
  Box::new(RecOf::<Point>::new()),
  Box::new(RecOf::<PropulsionSystemData>::new()),
  Box::new(RecOf::<RadioEntityType>::new()),
  Box::new(RecOf::<RecordSpecification>::new()),
  Box::new(RecOf::<Relationship>::new()),
  Box::new(RecOf::<SecondaryOperationalData>::new()),
  Box::new(RecOf::<ShaftRPMs>::new()),
  Box::new(RecOf::<SimulationAddress>::new()),
  Box::new(RecOf::<SimulationIdentifier>::new()),
  Box::new(RecOf::<StandardVariableRecords>::new()),
  Box::new(RecOf::<StandardVariableSpecification>::new()),
  Box::new(RecOf::<SupplyQuantity>::new()),
  Box::new(RecOf::<SystemId>::new()),
  Box::new(RecOf::<TrackJamTarget>::new()),
  Box::new(RecOf::<VariableParameter>::new()),
  Box::new(RecOf::<VariableTransmitterParameters>::new()),
  Box::new(RecOf::<Vector3Double>::new()),
  Box::new(RecOf::<Vector3Float>::new()),
  Box::new(RecOf::<VectoringNozzleSystemData>::new()),
  Box::new(RecOf::<VelocityVector>::new()),
  Box::new(RecOf::<WorldCoordinate>::new()),
  Box::new(RecOf::<VariableDatumRecord>::new()),
  Box::new(RecOf::<EntityMarking>::new()),
  Box::new(RecOf::<GridAxisDescriptor>::new()),
  Box::new(RecOf::<GridDataRecord>::new()),
  Box::new(RecOf::<RecordSpecificationElement>::new()),
]}
impl PduSpec for EntityStatePdu { const NAME: &'static str = "EntityStatePdu"; const TYPE: (PduType, u8) = (PduType::EntityState, 1); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::EntityInformation, 1);
  const FIELDS: &'static [&'static str] = &["entity_id", "force_id", "number_of_articulation_parameters", "entity_type", "alternative_entity_type", "entity_linear_velocity", "entity_location", "entity_orientation", "entity_appearance", "dead_reckoning_parameters", "entity_marking", "entity_capabilities", "articulation_parameter"];
  const LISTS: &'static [usize] = &[12];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.entity_id = Wire::gen(g); }
    1 => { self.force_id = Wire::gen(g); }
    2 => { self.number_of_articulation_parameters = Wire::gen(g); }
    3 => { self.entity_type = Wire::gen(g); }
    4 => { self.alternative_entity_type = Wire::gen(g); }
    5 => { self.entity_linear_velocity = Wire::gen(g); }
    6 => { self.entity_location = Wire::gen(g); }
    7 => { self.entity_orientation = Wire::gen(g); }
    8 => { self.entity_appearance = Wire::gen(g); }
    9 => { self.dead_reckoning_parameters = Wire::gen(g); }
    10 => { self.entity_marking = Wire::gen(g); }
    11 => { self.entity_capabilities = Wire::gen(g); }
    12 => { self.articulation_parameter = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_articulation_parameters = self.articulation_parameter.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.articulation_parameter.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.entity_id, w);
    Wire::enc(&self.force_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_articulation_parameters, w);
    Wire::enc(&self.entity_type, w);
    Wire::enc(&self.alternative_entity_type, w);
    Wire::enc(&self.entity_linear_velocity, w);
    Wire::enc(&self.entity_location, w);
    Wire::enc(&self.entity_orientation, w);
    Wire::enc(&self.entity_appearance, w);
    Wire::enc(&self.dead_reckoning_parameters, w);
    Wire::enc(&self.entity_marking, w);
    Wire::enc(&self.entity_capabilities, w);
    w.enter_list(); for x in &self.articulation_parameter { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.entity_id = Wire::dec(r)?;
    self.force_id = Wire::dec(r)?;
    self.number_of_articulation_parameters = Wire::dec(r)?;
    self.entity_type = Wire::dec(r)?;
    self.alternative_entity_type = Wire::dec(r)?;
    self.entity_linear_velocity = Wire::dec(r)?;
    self.entity_location = Wire::dec(r)?;
    self.entity_orientation = Wire::dec(r)?;
    self.entity_appearance = Wire::dec(r)?;
    self.dead_reckoning_parameters = Wire::dec(r)?;
    self.entity_marking = Wire::dec(r)?;
    self.entity_capabilities = Wire::dec(r)?;
    self.articulation_parameter = { let n = self.number_of_articulation_parameters as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.entity_id, &o.entity_id) { return Some(format!(".entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.force_id, &o.force_id) { return Some(format!(".force_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_articulation_parameters, &o.number_of_articulation_parameters) { return Some(format!(".number_of_articulation_parameters{d}")); }
    if let Some(d) = Wire::diff(&self.entity_type, &o.entity_type) { return Some(format!(".entity_type{d}")); }
    if let Some(d) = Wire::diff(&self.alternative_entity_type, &o.alternative_entity_type) { return Some(format!(".alternative_entity_type{d}")); }
    if let Some(d) = Wire::diff(&self.entity_linear_velocity, &o.entity_linear_velocity) { return Some(format!(".entity_linear_velocity{d}")); }
    if let Some(d) = Wire::diff(&self.entity_location, &o.entity_location) { return Some(format!(".entity_location{d}")); }
    if let Some(d) = Wire::diff(&self.entity_orientation, &o.entity_orientation) { return Some(format!(".entity_orientation{d}")); }
    if let Some(d) = Wire::diff(&self.entity_appearance, &o.entity_appearance) { return Some(format!(".entity_appearance{d}")); }
    if let Some(d) = Wire::diff(&self.dead_reckoning_parameters, &o.dead_reckoning_parameters) { return Some(format!(".dead_reckoning_parameters{d}")); }
    if let Some(d) = Wire::diff(&self.entity_marking, &o.entity_marking) { return Some(format!(".entity_marking{d}")); }
    if let Some(d) = Wire::diff(&self.entity_capabilities, &o.entity_capabilities) { return Some(format!(".entity_capabilities{d}")); }
    if let Some(d) = Wire::diff(&self.articulation_parameter, &o.articulation_parameter) { return Some(format!(".articulation_parameter{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.entity_id = Wire::dup(&self.entity_id);
    o.force_id = Wire::dup(&self.force_id);
    o.number_of_articulation_parameters = Wire::dup(&self.number_of_articulation_parameters);
    o.entity_type = Wire::dup(&self.entity_type);
    o.alternative_entity_type = Wire::dup(&self.alternative_entity_type);
    o.entity_linear_velocity = Wire::dup(&self.entity_linear_velocity);
    o.entity_location = Wire::dup(&self.entity_location);
    o.entity_orientation = Wire::dup(&self.entity_orientation);
    o.entity_appearance = Wire::dup(&self.entity_appearance);
    o.dead_reckoning_parameters = Wire::dup(&self.dead_reckoning_parameters);
    o.entity_marking = Wire::dup(&self.entity_marking);
    o.entity_capabilities = Wire::dup(&self.entity_capabilities);
    o.articulation_parameter = Wire::dup(&self.articulation_parameter);
  }
}
impl PduSpec for CollisionPdu { const NAME: &'static str = "CollisionPdu"; const TYPE: (PduType, u8) = (PduType::Collision, 4); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::EntityInformation, 1);
  const FIELDS: &'static [&'static str] = &["issuing_entity_id", "colliding_entity_id", "event_id", "collision_type", "velocity", "mass", "location_wrt_entity"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(48);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.issuing_entity_id = Wire::gen(g); }
    1 => { self.colliding_entity_id = Wire::gen(g); }
    2 => { self.event_id = Wire::gen(g); }
    3 => { self.collision_type = Wire::gen(g); }
    4 => { self.velocity = Wire::gen(g); }
    5 => { self.mass = Wire::gen(g); }
    6 => { self.location_wrt_entity = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.issuing_entity_id, w);
    Wire::enc(&self.colliding_entity_id, w);
    Wire::enc(&self.event_id, w);
    Wire::enc(&self.collision_type, w);
    w.pad(1);
    Wire::enc(&self.velocity, w);
    Wire::enc(&self.mass, w);
    Wire::enc(&self.location_wrt_entity, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.issuing_entity_id = Wire::dec(r)?;
    self.colliding_entity_id = Wire::dec(r)?;
    self.event_id = Wire::dec(r)?;
    self.collision_type = Wire::dec(r)?;
    r.skip(1)?;
    self.velocity = Wire::dec(r)?;
    self.mass = Wire::dec(r)?;
    self.location_wrt_entity = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.issuing_entity_id, &o.issuing_entity_id) { return Some(format!(".issuing_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.colliding_entity_id, &o.colliding_entity_id) { return Some(format!(".colliding_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.event_id, &o.event_id) { return Some(format!(".event_id{d}")); }
    if let Some(d) = Wire::diff(&self.collision_type, &o.collision_type) { return Some(format!(".collision_type{d}")); }
    if let Some(d) = Wire::diff(&self.velocity, &o.velocity) { return Some(format!(".velocity{d}")); }
    if let Some(d) = Wire::diff(&self.mass, &o.mass) { return Some(format!(".mass{d}")); }
    if let Some(d) = Wire::diff(&self.location_wrt_entity, &o.location_wrt_entity) { return Some(format!(".location_wrt_entity{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.issuing_entity_id = Wire::dup(&self.issuing_entity_id);
    o.colliding_entity_id = Wire::dup(&self.colliding_entity_id);
    o.event_id = Wire::dup(&self.event_id);
    o.collision_type = Wire::dup(&self.collision_type);
    o.velocity = Wire::dup(&self.velocity);
    o.mass = Wire::dup(&self.mass);
    o.location_wrt_entity = Wire::dup(&self.location_wrt_entity);
  }
}
impl PduSpec for CollisionElasticPdu { const NAME: &'static str = "CollisionElasticPdu"; const TYPE: (PduType, u8) = (PduType::CollisionElastic, 66); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::EntityInformation, 1);
  const FIELDS: &'static [&'static str] = &["issuing_entity_id", "colliding_entity_id", "event_id", "contact_velocity", "mass", "location_of_impact", "collision_intermediate_result_xx", "collision_intermediate_result_xy", "collision_intermediate_result_xz", "collision_intermediate_result_yy", "collision_intermediate_result_yz", "collision_intermediate_result_zz", "unit_surface_normal", "coefficient_of_restitution"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(88);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.issuing_entity_id = Wire::gen(g); }
    1 => { self.colliding_entity_id = Wire::gen(g); }
    2 => { self.event_id = Wire::gen(g); }
    3 => { self.contact_velocity = Wire::gen(g); }
    4 => { self.mass = Wire::gen(g); }
    5 => { self.location_of_impact = Wire::gen(g); }
    6 => { self.collision_intermediate_result_xx = Wire::gen(g); }
    7 => { self.collision_intermediate_result_xy = Wire::gen(g); }
    8 => { self.collision_intermediate_result_xz = Wire::gen(g); }
    9 => { self.collision_intermediate_result_yy = Wire::gen(g); }
    10 => { self.collision_intermediate_result_yz = Wire::gen(g); }
    11 => { self.collision_intermediate_result_zz = Wire::gen(g); }
    12 => { self.unit_surface_normal = Wire::gen(g); }
    13 => { self.coefficient_of_restitution = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.issuing_entity_id, w);
    Wire::enc(&self.colliding_entity_id, w);
    Wire::enc(&self.event_id, w);
    w.pad(2);
    Wire::enc(&self.contact_velocity, w);
    Wire::enc(&self.mass, w);
    Wire::enc(&self.location_of_impact, w);
    Wire::enc(&self.collision_intermediate_result_xx, w);
    Wire::enc(&self.collision_intermediate_result_xy, w);
    Wire::enc(&self.collision_intermediate_result_xz, w);
    Wire::enc(&self.collision_intermediate_result_yy, w);
    Wire::enc(&self.collision_intermediate_result_yz, w);
    Wire::enc(&self.collision_intermediate_result_zz, w);
    Wire::enc(&self.unit_surface_normal, w);
    Wire::enc(&self.coefficient_of_restitution, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.issuing_entity_id = Wire::dec(r)?;
    self.colliding_entity_id = Wire::dec(r)?;
    self.event_id = Wire::dec(r)?;
    r.skip(2)?;
    self.contact_velocity = Wire::dec(r)?;
    self.mass = Wire::dec(r)?;
    self.location_of_impact = Wire::dec(r)?;
    self.collision_intermediate_result_xx = Wire::dec(r)?;
    self.collision_intermediate_result_xy = Wire::dec(r)?;
    self.collision_intermediate_result_xz = Wire::dec(r)?;
    self.collision_intermediate_result_yy = Wire::dec(r)?;
    self.collision_intermediate_result_yz = Wire::dec(r)?;
    self.collision_intermediate_result_zz = Wire::dec(r)?;
    self.unit_surface_normal = Wire::dec(r)?;
    self.coefficient_of_restitution = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.issuing_entity_id, &o.issuing_entity_id) { return Some(format!(".issuing_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.colliding_entity_id, &o.colliding_entity_id) { return Some(format!(".colliding_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.event_id, &o.event_id) { return Some(format!(".event_id{d}")); }
    if let Some(d) = Wire::diff(&self.contact_velocity, &o.contact_velocity) { return Some(format!(".contact_velocity{d}")); }
    if let Some(d) = Wire::diff(&self.mass, &o.mass) { return Some(format!(".mass{d}")); }
    if let Some(d) = Wire::diff(&self.location_of_impact, &o.location_of_impact) { return Some(format!(".location_of_impact{d}")); }
    if let Some(d) = Wire::diff(&self.collision_intermediate_result_xx, &o.collision_intermediate_result_xx) { return Some(format!(".collision_intermediate_result_xx{d}")); }
    if let Some(d) = Wire::diff(&self.collision_intermediate_result_xy, &o.collision_intermediate_result_xy) { return Some(format!(".collision_intermediate_result_xy{d}")); }
    if let Some(d) = Wire::diff(&self.collision_intermediate_result_xz, &o.collision_intermediate_result_xz) { return Some(format!(".collision_intermediate_result_xz{d}")); }
    if let Some(d) = Wire::diff(&self.collision_intermediate_result_yy, &o.collision_intermediate_result_yy) { return Some(format!(".collision_intermediate_result_yy{d}")); }
    if let Some(d) = Wire::diff(&self.collision_intermediate_result_yz, &o.collision_intermediate_result_yz) { return Some(format!(".collision_intermediate_result_yz{d}")); }
    if let Some(d) = Wire::diff(&self.collision_intermediate_result_zz, &o.collision_intermediate_result_zz) { return Some(format!(".collision_intermediate_result_zz{d}")); }
    if let Some(d) = Wire::diff(&self.unit_surface_normal, &o.unit_surface_normal) { return Some(format!(".unit_surface_normal{d}")); }
    if let Some(d) = Wire::diff(&self.coefficient_of_restitution, &o.coefficient_of_restitution) { return Some(format!(".coefficient_of_restitution{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.issuing_entity_id = Wire::dup(&self.issuing_entity_id);
    o.colliding_entity_id = Wire::dup(&self.colliding_entity_id);
    o.event_id = Wire::dup(&self.event_id);
    o.contact_velocity = Wire::dup(&self.contact_velocity);
    o.mass = Wire::dup(&self.mass);
    o.location_of_impact = Wire::dup(&self.location_of_impact);
    o.collision_intermediate_result_xx = Wire::dup(&self.collision_intermediate_result_xx);
    o.collision_intermediate_result_xy = Wire::dup(&self.collision_intermediate_result_xy);
    o.collision_intermediate_result_xz = Wire::dup(&self.collision_intermediate_result_xz);
    o.collision_intermediate_result_yy = Wire::dup(&self.collision_intermediate_result_yy);
    o.collision_intermediate_result_yz = Wire::dup(&self.collision_intermediate_result_yz);
    o.collision_intermediate_result_zz = Wire::dup(&self.collision_intermediate_result_zz);
    o.unit_surface_normal = Wire::dup(&self.unit_surface_normal);
    o.coefficient_of_restitution = Wire::dup(&self.coefficient_of_restitution);
  }
}
impl PduSpec for EntityStateUpdatePdu { const NAME: &'static str = "EntityStateUpdatePdu"; const TYPE: (PduType, u8) = (PduType::EntityStateUpdate, 67); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::EntityInformation, 1);
  const FIELDS: &'static [&'static str] = &["entity_id", "number_of_variable_parameters", "entity_linear_velocity", "entity_location", "entity_orientation", "entity_appearance", "variable_parameter_records"];
  const LISTS: &'static [usize] = &[6];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.entity_id = Wire::gen(g); }
    1 => { self.number_of_variable_parameters = Wire::gen(g); }
    2 => { self.entity_linear_velocity = Wire::gen(g); }
    3 => { self.entity_location = Wire::gen(g); }
    4 => { self.entity_orientation = Wire::gen(g); }
    5 => { self.entity_appearance = Wire::gen(g); }
    6 => { self.variable_parameter_records = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_variable_parameters = self.variable_parameter_records.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.variable_parameter_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.entity_id, w);
    w.pad(1);
    w.mark_count();
    Wire::enc(&self.number_of_variable_parameters, w);
    Wire::enc(&self.entity_linear_velocity, w);
    Wire::enc(&self.entity_location, w);
    Wire::enc(&self.entity_orientation, w);
    Wire::enc(&self.entity_appearance, w);
    w.enter_list(); for x in &self.variable_parameter_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.entity_id = Wire::dec(r)?;
    r.skip(1)?;
    self.number_of_variable_parameters = Wire::dec(r)?;
    self.entity_linear_velocity = Wire::dec(r)?;
    self.entity_location = Wire::dec(r)?;
    self.entity_orientation = Wire::dec(r)?;
    self.entity_appearance = Wire::dec(r)?;
    self.variable_parameter_records = { let n = self.number_of_variable_parameters as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.entity_id, &o.entity_id) { return Some(format!(".entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_parameters, &o.number_of_variable_parameters) { return Some(format!(".number_of_variable_parameters{d}")); }
    if let Some(d) = Wire::diff(&self.entity_linear_velocity, &o.entity_linear_velocity) { return Some(format!(".entity_linear_velocity{d}")); }
    if let Some(d) = Wire::diff(&self.entity_location, &o.entity_location) { return Some(format!(".entity_location{d}")); }
    if let Some(d) = Wire::diff(&self.entity_orientation, &o.entity_orientation) { return Some(format!(".entity_orientation{d}")); }
    if let Some(d) = Wire::diff(&self.entity_appearance, &o.entity_appearance) { return Some(format!(".entity_appearance{d}")); }
    if let Some(d) = Wire::diff(&self.variable_parameter_records, &o.variable_parameter_records) { return Some(format!(".variable_parameter_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.entity_id = Wire::dup(&self.entity_id);
    o.number_of_variable_parameters = Wire::dup(&self.number_of_variable_parameters);
    o.entity_linear_velocity = Wire::dup(&self.entity_linear_velocity);
    o.entity_location = Wire::dup(&self.entity_location);
    o.entity_orientation = Wire::dup(&self.entity_orientation);
    o.entity_appearance = Wire::dup(&self.entity_appearance);
    o.variable_parameter_records = Wire::dup(&self.variable_parameter_records);
  }
}
impl PduSpec for AttributePdu { const NAME: &'static str = "AttributePdu"; const TYPE: (PduType, u8) = (PduType::Attribute, 72); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::EntityInformation, 1);
  const FIELDS: &'static [&'static str] = &["originating_simulation_address", "attribute_record_pdu_type", "attribute_record_protocol_version", "master_attribute_record_type", "action_code", "number_of_attribute_record_sets", "attribute_record_sets"];
  const LISTS: &'static [usize] = &[6];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_simulation_address = Wire::gen(g); }
    1 => { self.attribute_record_pdu_type = Wire::gen(g); }
    2 => { self.attribute_record_protocol_version = Wire::gen(g); }
    3 => { self.master_attribute_record_type = Wire::gen(g); }
    4 => { self.action_code = Wire::gen(g); }
    5 => { self.number_of_attribute_record_sets = Wire::gen(g); }
    6 => { self.attribute_record_sets = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_attribute_record_sets = self.attribute_record_sets.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.attribute_record_sets.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_simulation_address, w);
    w.pad(4);
    w.pad(2);
    Wire::enc(&self.attribute_record_pdu_type, w);
    Wire::enc(&self.attribute_record_protocol_version, w);
    Wire::enc(&self.master_attribute_record_type, w);
    Wire::enc(&self.action_code, w);
    w.pad(1);
    w.mark_count();
    Wire::enc(&self.number_of_attribute_record_sets, w);
    w.enter_list(); for x in &self.attribute_record_sets { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_simulation_address = Wire::dec(r)?;
    r.skip(4)?;
    r.skip(2)?;
    self.attribute_record_pdu_type = Wire::dec(r)?;
    self.attribute_record_protocol_version = Wire::dec(r)?;
    self.master_attribute_record_type = Wire::dec(r)?;
    self.action_code = Wire::dec(r)?;
    r.skip(1)?;
    self.number_of_attribute_record_sets = Wire::dec(r)?;
    self.attribute_record_sets = { let n = self.number_of_attribute_record_sets as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_simulation_address, &o.originating_simulation_address) { return Some(format!(".originating_simulation_address{d}")); }
    if let Some(d) = Wire::diff(&self.attribute_record_pdu_type, &o.attribute_record_pdu_type) { return Some(format!(".attribute_record_pdu_type{d}")); }
    if let Some(d) = Wire::diff(&self.attribute_record_protocol_version, &o.attribute_record_protocol_version) { return Some(format!(".attribute_record_protocol_version{d}")); }
    if let Some(d) = Wire::diff(&self.master_attribute_record_type, &o.master_attribute_record_type) { return Some(format!(".master_attribute_record_type{d}")); }
    if let Some(d) = Wire::diff(&self.action_code, &o.action_code) { return Some(format!(".action_code{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_attribute_record_sets, &o.number_of_attribute_record_sets) { return Some(format!(".number_of_attribute_record_sets{d}")); }
    if let Some(d) = Wire::diff(&self.attribute_record_sets, &o.attribute_record_sets) { return Some(format!(".attribute_record_sets{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_simulation_address = Wire::dup(&self.originating_simulation_address);
    o.attribute_record_pdu_type = Wire::dup(&self.attribute_record_pdu_type);
    o.attribute_record_protocol_version = Wire::dup(&self.attribute_record_protocol_version);
    o.master_attribute_record_type = Wire::dup(&self.master_attribute_record_type);
    o.action_code = Wire::dup(&self.action_code);
    o.number_of_attribute_record_sets = Wire::dup(&self.number_of_attribute_record_sets);
    o.attribute_record_sets = Wire::dup(&self.attribute_record_sets);
  }
}
impl PduSpec for FirePdu { const NAME: &'static str = "FirePdu"; const TYPE: (PduType, u8) = (PduType::Fire, 2); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Warfare, 2);
  const FIELDS: &'static [&'static str] = &["firing_entity_id", "target_entity_id", "munition_expendable_id", "event_id", "fire_mission_index", "location_in_world_coordinates", "descriptor", "velocity", "range"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(84);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.firing_entity_id = Wire::gen(g); }
    1 => { self.target_entity_id = Wire::gen(g); }
    2 => { self.munition_expendable_id = Wire::gen(g); }
    3 => { self.event_id = Wire::gen(g); }
    4 => { self.fire_mission_index = Wire::gen(g); }
    5 => { self.location_in_world_coordinates = Wire::gen(g); }
    6 => { self.descriptor = Wire::gen(g); }
    7 => { self.velocity = Wire::gen(g); }
    8 => { self.range = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.firing_entity_id, w);
    Wire::enc(&self.target_entity_id, w);
    Wire::enc(&self.munition_expendable_id, w);
    Wire::enc(&self.event_id, w);
    Wire::enc(&self.fire_mission_index, w);
    Wire::enc(&self.location_in_world_coordinates, w);
    Wire::enc(&self.descriptor, w);
    Wire::enc(&self.velocity, w);
    Wire::enc(&self.range, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.firing_entity_id = Wire::dec(r)?;
    self.target_entity_id = Wire::dec(r)?;
    self.munition_expendable_id = Wire::dec(r)?;
    self.event_id = Wire::dec(r)?;
    self.fire_mission_index = Wire::dec(r)?;
    self.location_in_world_coordinates = Wire::dec(r)?;
    self.descriptor = Wire::dec(r)?;
    self.velocity = Wire::dec(r)?;
    self.range = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.firing_entity_id, &o.firing_entity_id) { return Some(format!(".firing_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.target_entity_id, &o.target_entity_id) { return Some(format!(".target_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.munition_expendable_id, &o.munition_expendable_id) { return Some(format!(".munition_expendable_id{d}")); }
    if let Some(d) = Wire::diff(&self.event_id, &o.event_id) { return Some(format!(".event_id{d}")); }
    if let Some(d) = Wire::diff(&self.fire_mission_index, &o.fire_mission_index) { return Some(format!(".fire_mission_index{d}")); }
    if let Some(d) = Wire::diff(&self.location_in_world_coordinates, &o.location_in_world_coordinates) { return Some(format!(".location_in_world_coordinates{d}")); }
    if let Some(d) = Wire::diff(&self.descriptor, &o.descriptor) { return Some(format!(".descriptor{d}")); }
    if let Some(d) = Wire::diff(&self.velocity, &o.velocity) { return Some(format!(".velocity{d}")); }
    if let Some(d) = Wire::diff(&self.range, &o.range) { return Some(format!(".range{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.firing_entity_id = Wire::dup(&self.firing_entity_id);
    o.target_entity_id = Wire::dup(&self.target_entity_id);
    o.munition_expendable_id = Wire::dup(&self.munition_expendable_id);
    o.event_id = Wire::dup(&self.event_id);
    o.fire_mission_index = Wire::dup(&self.fire_mission_index);
    o.location_in_world_coordinates = Wire::dup(&self.location_in_world_coordinates);
    o.descriptor = Wire::dup(&self.descriptor);
    o.velocity = Wire::dup(&self.velocity);
    o.range = Wire::dup(&self.range);
  }
}
impl PduSpec for DetonationPdu { const NAME: &'static str = "DetonationPdu"; const TYPE: (PduType, u8) = (PduType::Detonation, 3); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Warfare, 2);
  const FIELDS: &'static [&'static str] = &["firing_entity_id", "target_entity_id", "exploding_entity_id", "event_id", "velocity", "location_in_world_coordinates", "descriptor", "location_in_entitys_coordinates", "detonation_result", "number_of_variable_parameters", "variable_parameters"];
  const LISTS: &'static [usize] = &[10];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.firing_entity_id = Wire::gen(g); }
    1 => { self.target_entity_id = Wire::gen(g); }
    2 => { self.exploding_entity_id = Wire::gen(g); }
    3 => { self.event_id = Wire::gen(g); }
    4 => { self.velocity = Wire::gen(g); }
    5 => { self.location_in_world_coordinates = Wire::gen(g); }
    6 => { self.descriptor = Wire::gen(g); }
    7 => { self.location_in_entitys_coordinates = Wire::gen(g); }
    8 => { self.detonation_result = Wire::gen(g); }
    9 => { self.number_of_variable_parameters = Wire::gen(g); }
    10 => { self.variable_parameters = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_variable_parameters = self.variable_parameters.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.variable_parameters.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.firing_entity_id, w);
    Wire::enc(&self.target_entity_id, w);
    Wire::enc(&self.exploding_entity_id, w);
    Wire::enc(&self.event_id, w);
    Wire::enc(&self.velocity, w);
    Wire::enc(&self.location_in_world_coordinates, w);
    Wire::enc(&self.descriptor, w);
    Wire::enc(&self.location_in_entitys_coordinates, w);
    Wire::enc(&self.detonation_result, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_parameters, w);
    w.pad(2);
    w.enter_list(); for x in &self.variable_parameters { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.firing_entity_id = Wire::dec(r)?;
    self.target_entity_id = Wire::dec(r)?;
    self.exploding_entity_id = Wire::dec(r)?;
    self.event_id = Wire::dec(r)?;
    self.velocity = Wire::dec(r)?;
    self.location_in_world_coordinates = Wire::dec(r)?;
    self.descriptor = Wire::dec(r)?;
    self.location_in_entitys_coordinates = Wire::dec(r)?;
    self.detonation_result = Wire::dec(r)?;
    self.number_of_variable_parameters = Wire::dec(r)?;
    r.skip(2)?;
    self.variable_parameters = { let n = self.number_of_variable_parameters as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.firing_entity_id, &o.firing_entity_id) { return Some(format!(".firing_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.target_entity_id, &o.target_entity_id) { return Some(format!(".target_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.exploding_entity_id, &o.exploding_entity_id) { return Some(format!(".exploding_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.event_id, &o.event_id) { return Some(format!(".event_id{d}")); }
    if let Some(d) = Wire::diff(&self.velocity, &o.velocity) { return Some(format!(".velocity{d}")); }
    if let Some(d) = Wire::diff(&self.location_in_world_coordinates, &o.location_in_world_coordinates) { return Some(format!(".location_in_world_coordinates{d}")); }
    if let Some(d) = Wire::diff(&self.descriptor, &o.descriptor) { return Some(format!(".descriptor{d}")); }
    if let Some(d) = Wire::diff(&self.location_in_entitys_coordinates, &o.location_in_entitys_coordinates) { return Some(format!(".location_in_entitys_coordinates{d}")); }
    if let Some(d) = Wire::diff(&self.detonation_result, &o.detonation_result) { return Some(format!(".detonation_result{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_parameters, &o.number_of_variable_parameters) { return Some(format!(".number_of_variable_parameters{d}")); }
    if let Some(d) = Wire::diff(&self.variable_parameters, &o.variable_parameters) { return Some(format!(".variable_parameters{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.firing_entity_id = Wire::dup(&self.firing_entity_id);
    o.target_entity_id = Wire::dup(&self.target_entity_id);
    o.exploding_entity_id = Wire::dup(&self.exploding_entity_id);
    o.event_id = Wire::dup(&self.event_id);
    o.velocity = Wire::dup(&self.velocity);
    o.location_in_world_coordinates = Wire::dup(&self.location_in_world_coordinates);
    o.descriptor = Wire::dup(&self.descriptor);
    o.location_in_entitys_coordinates = Wire::dup(&self.location_in_entitys_coordinates);
    o.detonation_result = Wire::dup(&self.detonation_result);
    o.number_of_variable_parameters = Wire::dup(&self.number_of_variable_parameters);
    o.variable_parameters = Wire::dup(&self.variable_parameters);
  }
}
impl PduSpec for DirectedEnergyFirePdu { const NAME: &'static str = "DirectedEnergyFirePdu"; const TYPE: (PduType, u8) = (PduType::DirectedEnergyFire, 68); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Warfare, 2);
  const FIELDS: &'static [&'static str] = &["firing_entity_id", "event_id", "munition_type", "shot_start_time", "cumulative_shot_time", "aperture_emitter_location", "aperture_diameter", "wavelength", "pulse_repetition_frequency", "pulse_width", "flags", "pulse_shape", "number_of_de_records", "damage_descriptions"];
  const LISTS: &'static [usize] = &[13];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.firing_entity_id = Wire::gen(g); }
    1 => { self.event_id = Wire::gen(g); }
    2 => { self.munition_type = Wire::gen(g); }
    3 => { self.shot_start_time = Wire::gen(g); }
    4 => { self.cumulative_shot_time = Wire::gen(g); }
    5 => { self.aperture_emitter_location = Wire::gen(g); }
    6 => { self.aperture_diameter = Wire::gen(g); }
    7 => { self.wavelength = Wire::gen(g); }
    8 => { self.pulse_repetition_frequency = Wire::gen(g); }
    9 => { self.pulse_width = Wire::gen(g); }
    10 => { self.flags = Wire::gen(g); }
    11 => { self.pulse_shape = Wire::gen(g); }
    12 => { self.number_of_de_records = Wire::gen(g); }
    13 => { self.damage_descriptions = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_de_records = self.damage_descriptions.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.damage_descriptions.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.firing_entity_id, w);
    Wire::enc(&self.event_id, w);
    Wire::enc(&self.munition_type, w);
    Wire::enc(&self.shot_start_time, w);
    Wire::enc(&self.cumulative_shot_time, w);
    Wire::enc(&self.aperture_emitter_location, w);
    Wire::enc(&self.aperture_diameter, w);
    Wire::enc(&self.wavelength, w);
    w.pad(4);
    Wire::enc(&self.pulse_repetition_frequency, w);
    Wire::enc(&self.pulse_width, w);
    Wire::enc(&self.flags, w);
    Wire::enc(&self.pulse_shape, w);
    w.pad(1);
    w.pad(4);
    w.pad(2);
    w.mark_count();
    Wire::enc(&self.number_of_de_records, w);
    w.enter_list(); for x in &self.damage_descriptions { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.firing_entity_id = Wire::dec(r)?;
    self.event_id = Wire::dec(r)?;
    self.munition_type = Wire::dec(r)?;
    self.shot_start_time = Wire::dec(r)?;
    self.cumulative_shot_time = Wire::dec(r)?;
    self.aperture_emitter_location = Wire::dec(r)?;
    self.aperture_diameter = Wire::dec(r)?;
    self.wavelength = Wire::dec(r)?;
    r.skip(4)?;
    self.pulse_repetition_frequency = Wire::dec(r)?;
    self.pulse_width = Wire::dec(r)?;
    self.flags = Wire::dec(r)?;
    self.pulse_shape = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(4)?;
    r.skip(2)?;
    self.number_of_de_records = Wire::dec(r)?;
    self.damage_descriptions = { let n = self.number_of_de_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.firing_entity_id, &o.firing_entity_id) { return Some(format!(".firing_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.event_id, &o.event_id) { return Some(format!(".event_id{d}")); }
    if let Some(d) = Wire::diff(&self.munition_type, &o.munition_type) { return Some(format!(".munition_type{d}")); }
    if let Some(d) = Wire::diff(&self.shot_start_time, &o.shot_start_time) { return Some(format!(".shot_start_time{d}")); }
    if let Some(d) = Wire::diff(&self.cumulative_shot_time, &o.cumulative_shot_time) { return Some(format!(".cumulative_shot_time{d}")); }
    if let Some(d) = Wire::diff(&self.aperture_emitter_location, &o.aperture_emitter_location) { return Some(format!(".aperture_emitter_location{d}")); }
    if let Some(d) = Wire::diff(&self.aperture_diameter, &o.aperture_diameter) { return Some(format!(".aperture_diameter{d}")); }
    if let Some(d) = Wire::diff(&self.wavelength, &o.wavelength) { return Some(format!(".wavelength{d}")); }
    if let Some(d) = Wire::diff(&self.pulse_repetition_frequency, &o.pulse_repetition_frequency) { return Some(format!(".pulse_repetition_frequency{d}")); }
    if let Some(d) = Wire::diff(&self.pulse_width, &o.pulse_width) { return Some(format!(".pulse_width{d}")); }
    if let Some(d) = Wire::diff(&self.flags, &o.flags) { return Some(format!(".flags{d}")); }
    if let Some(d) = Wire::diff(&self.pulse_shape, &o.pulse_shape) { return Some(format!(".pulse_shape{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_de_records, &o.number_of_de_records) { return Some(format!(".number_of_de_records{d}")); }
    if let Some(d) = Wire::diff(&self.damage_descriptions, &o.damage_descriptions) { return Some(format!(".damage_descriptions{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.firing_entity_id = Wire::dup(&self.firing_entity_id);
    o.event_id = Wire::dup(&self.event_id);
    o.munition_type = Wire::dup(&self.munition_type);
    o.shot_start_time = Wire::dup(&self.shot_start_time);
    o.cumulative_shot_time = Wire::dup(&self.cumulative_shot_time);
    o.aperture_emitter_location = Wire::dup(&self.aperture_emitter_location);
    o.aperture_diameter = Wire::dup(&self.aperture_diameter);
    o.wavelength = Wire::dup(&self.wavelength);
    o.pulse_repetition_frequency = Wire::dup(&self.pulse_repetition_frequency);
    o.pulse_width = Wire::dup(&self.pulse_width);
    o.flags = Wire::dup(&self.flags);
    o.pulse_shape = Wire::dup(&self.pulse_shape);
    o.number_of_de_records = Wire::dup(&self.number_of_de_records);
    o.damage_descriptions = Wire::dup(&self.damage_descriptions);
  }
}
impl PduSpec for EntityDamageStatusPdu { const NAME: &'static str = "EntityDamageStatusPdu"; const TYPE: (PduType, u8) = (PduType::EntityDamageStatus, 69); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Warfare, 2);
  const FIELDS: &'static [&'static str] = &["damaged_entity_id", "number_of_damage_descriptions", "damage_descriptions"];
  const LISTS: &'static [usize] = &[2];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.damaged_entity_id = Wire::gen(g); }
    1 => { self.number_of_damage_descriptions = Wire::gen(g); }
    2 => { self.damage_descriptions = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_damage_descriptions = self.damage_descriptions.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.damage_descriptions.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.damaged_entity_id, w);
    w.pad(2);
    w.pad(2);
    w.mark_count();
    Wire::enc(&self.number_of_damage_descriptions, w);
    w.enter_list(); for x in &self.damage_descriptions { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.damaged_entity_id = Wire::dec(r)?;
    r.skip(2)?;
    r.skip(2)?;
    self.number_of_damage_descriptions = Wire::dec(r)?;
    self.damage_descriptions = { let n = self.number_of_damage_descriptions as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.damaged_entity_id, &o.damaged_entity_id) { return Some(format!(".damaged_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_damage_descriptions, &o.number_of_damage_descriptions) { return Some(format!(".number_of_damage_descriptions{d}")); }
    if let Some(d) = Wire::diff(&self.damage_descriptions, &o.damage_descriptions) { return Some(format!(".damage_descriptions{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.damaged_entity_id = Wire::dup(&self.damaged_entity_id);
    o.number_of_damage_descriptions = Wire::dup(&self.number_of_damage_descriptions);
    o.damage_descriptions = Wire::dup(&self.damage_descriptions);
  }
}
impl PduSpec for ServiceRequestPdu { const NAME: &'static str = "ServiceRequestPdu"; const TYPE: (PduType, u8) = (PduType::ServiceRequest, 5); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Logistics, 3);
  const FIELDS: &'static [&'static str] = &["receiving_entity_id", "servicing_entity_id", "service_type_requested", "number_of_supply_types", "supplies"];
  const LISTS: &'static [usize] = &[4];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.receiving_entity_id = Wire::gen(g); }
    1 => { self.servicing_entity_id = Wire::gen(g); }
    2 => { self.service_type_requested = Wire::gen(g); }
    3 => { self.number_of_supply_types = Wire::gen(g); }
    4 => { self.supplies = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_supply_types = self.supplies.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.supplies.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.servicing_entity_id, w);
    Wire::enc(&self.service_type_requested, w);
    w.mark_count();
    Wire::enc(&self.number_of_supply_types, w);
    w.pad(2);
    w.enter_list(); for x in &self.supplies { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.receiving_entity_id = Wire::dec(r)?;
    self.servicing_entity_id = Wire::dec(r)?;
    self.service_type_requested = Wire::dec(r)?;
    self.number_of_supply_types = Wire::dec(r)?;
    r.skip(2)?;
    self.supplies = { let n = self.number_of_supply_types as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.servicing_entity_id, &o.servicing_entity_id) { return Some(format!(".servicing_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.service_type_requested, &o.service_type_requested) { return Some(format!(".service_type_requested{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_supply_types, &o.number_of_supply_types) { return Some(format!(".number_of_supply_types{d}")); }
    if let Some(d) = Wire::diff(&self.supplies, &o.supplies) { return Some(format!(".supplies{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.servicing_entity_id = Wire::dup(&self.servicing_entity_id);
    o.service_type_requested = Wire::dup(&self.service_type_requested);
    o.number_of_supply_types = Wire::dup(&self.number_of_supply_types);
    o.supplies = Wire::dup(&self.supplies);
  }
}
impl PduSpec for ResupplyOfferPdu { const NAME: &'static str = "ResupplyOfferPdu"; const TYPE: (PduType, u8) = (PduType::ResupplyOffer, 6); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Logistics, 3);
  const FIELDS: &'static [&'static str] = &["receiving_entity_id", "supplying_entity_id", "number_of_supply_types", "supplies"];
  const LISTS: &'static [usize] = &[3];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.receiving_entity_id = Wire::gen(g); }
    1 => { self.supplying_entity_id = Wire::gen(g); }
    2 => { self.number_of_supply_types = Wire::gen(g); }
    3 => { self.supplies = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_supply_types = self.supplies.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.supplies.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.supplying_entity_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_supply_types, w);
    w.pad(1);
    w.pad(2);
    w.enter_list(); for x in &self.supplies { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.receiving_entity_id = Wire::dec(r)?;
    self.supplying_entity_id = Wire::dec(r)?;
    self.number_of_supply_types = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.supplies = { let n = self.number_of_supply_types as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.supplying_entity_id, &o.supplying_entity_id) { return Some(format!(".supplying_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_supply_types, &o.number_of_supply_types) { return Some(format!(".number_of_supply_types{d}")); }
    if let Some(d) = Wire::diff(&self.supplies, &o.supplies) { return Some(format!(".supplies{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.supplying_entity_id = Wire::dup(&self.supplying_entity_id);
    o.number_of_supply_types = Wire::dup(&self.number_of_supply_types);
    o.supplies = Wire::dup(&self.supplies);
  }
}
impl PduSpec for ResupplyReceivedPdu { const NAME: &'static str = "ResupplyReceivedPdu"; const TYPE: (PduType, u8) = (PduType::ResupplyReceived, 7); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Logistics, 3);
  const FIELDS: &'static [&'static str] = &["receiving_entity_id", "supplying_entity_id", "number_of_supply_types", "supplies"];
  const LISTS: &'static [usize] = &[3];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.receiving_entity_id = Wire::gen(g); }
    1 => { self.supplying_entity_id = Wire::gen(g); }
    2 => { self.number_of_supply_types = Wire::gen(g); }
    3 => { self.supplies = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_supply_types = self.supplies.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.supplies.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.supplying_entity_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_supply_types, w);
    w.pad(1);
    w.pad(2);
    w.enter_list(); for x in &self.supplies { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.receiving_entity_id = Wire::dec(r)?;
    self.supplying_entity_id = Wire::dec(r)?;
    self.number_of_supply_types = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.supplies = { let n = self.number_of_supply_types as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.supplying_entity_id, &o.supplying_entity_id) { return Some(format!(".supplying_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_supply_types, &o.number_of_supply_types) { return Some(format!(".number_of_supply_types{d}")); }
    if let Some(d) = Wire::diff(&self.supplies, &o.supplies) { return Some(format!(".supplies{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.supplying_entity_id = Wire::dup(&self.supplying_entity_id);
    o.number_of_supply_types = Wire::dup(&self.number_of_supply_types);
    o.supplies = Wire::dup(&self.supplies);
  }
}
impl PduSpec for ResupplyCancelPdu { const NAME: &'static str = "ResupplyCancelPdu"; const TYPE: (PduType, u8) = (PduType::ResupplyCancel, 8); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Logistics, 3);
  const FIELDS: &'static [&'static str] = &["receiving_entity_id", "supplying_entity_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(12);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.receiving_entity_id = Wire::gen(g); }
    1 => { self.supplying_entity_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.supplying_entity_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.receiving_entity_id = Wire::dec(r)?;
    self.supplying_entity_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.supplying_entity_id, &o.supplying_entity_id) { return Some(format!(".supplying_entity_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.supplying_entity_id = Wire::dup(&self.supplying_entity_id);
  }
}
impl PduSpec for RepairCompletePdu { const NAME: &'static str = "RepairCompletePdu"; const TYPE: (PduType, u8) = (PduType::RepairComplete, 9); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Logistics, 3);
  const FIELDS: &'static [&'static str] = &["receiving_entity_id", "repairing_entity_id", "repair"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(16);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.receiving_entity_id = Wire::gen(g); }
    1 => { self.repairing_entity_id = Wire::gen(g); }
    2 => { self.repair = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.repairing_entity_id, w);
    Wire::enc(&self.repair, w);
    w.pad(2);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.receiving_entity_id = Wire::dec(r)?;
    self.repairing_entity_id = Wire::dec(r)?;
    self.repair = Wire::dec(r)?;
    r.skip(2)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.repairing_entity_id, &o.repairing_entity_id) { return Some(format!(".repairing_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.repair, &o.repair) { return Some(format!(".repair{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.repairing_entity_id = Wire::dup(&self.repairing_entity_id);
    o.repair = Wire::dup(&self.repair);
  }
}
impl PduSpec for RepairResponsePdu { const NAME: &'static str = "RepairResponsePdu"; const TYPE: (PduType, u8) = (PduType::RepairResponse, 10); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Logistics, 3);
  const FIELDS: &'static [&'static str] = &["receiving_entity_id", "repairing_entity_id", "repair_result"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(16);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.receiving_entity_id = Wire::gen(g); }
    1 => { self.repairing_entity_id = Wire::gen(g); }
    2 => { self.repair_result = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.repairing_entity_id, w);
    Wire::enc(&self.repair_result, w);
    w.pad(1);
    w.pad(2);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.receiving_entity_id = Wire::dec(r)?;
    self.repairing_entity_id = Wire::dec(r)?;
    self.repair_result = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.repairing_entity_id, &o.repairing_entity_id) { return Some(format!(".repairing_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.repair_result, &o.repair_result) { return Some(format!(".repair_result{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.repairing_entity_id = Wire::dup(&self.repairing_entity_id);
    o.repair_result = Wire::dup(&self.repair_result);
  }
}
impl PduSpec for CreateEntityPdu { const NAME: &'static str = "CreateEntityPdu"; const TYPE: (PduType, u8) = (PduType::CreateEntity, 11); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(16);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
  }
}
impl PduSpec for RemoveEntityPdu { const NAME: &'static str = "RemoveEntityPdu"; const TYPE: (PduType, u8) = (PduType::RemoveEntity, 12); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(16);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
  }
}
impl PduSpec for StartResumePdu { const NAME: &'static str = "StartResumePdu"; const TYPE: (PduType, u8) = (PduType::StartResume, 13); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "real_world_time", "simulation_time", "request_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(32);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.real_world_time = Wire::gen(g); }
    3 => { self.simulation_time = Wire::gen(g); }
    4 => { self.request_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.real_world_time, w);
    Wire::enc(&self.simulation_time, w);
    Wire::enc(&self.request_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.real_world_time = Wire::dec(r)?;
    self.simulation_time = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.real_world_time, &o.real_world_time) { return Some(format!(".real_world_time{d}")); }
    if let Some(d) = Wire::diff(&self.simulation_time, &o.simulation_time) { return Some(format!(".simulation_time{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.real_world_time = Wire::dup(&self.real_world_time);
    o.simulation_time = Wire::dup(&self.simulation_time);
    o.request_id = Wire::dup(&self.request_id);
  }
}
impl PduSpec for StopFreezePdu { const NAME: &'static str = "StopFreezePdu"; const TYPE: (PduType, u8) = (PduType::StopFreeze, 14); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "real_world_time", "reason", "frozen_behavior", "request_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(28);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.real_world_time = Wire::gen(g); }
    3 => { self.reason = Wire::gen(g); }
    4 => { self.frozen_behavior = Wire::gen(g); }
    5 => { self.request_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.real_world_time, w);
    Wire::enc(&self.reason, w);
    Wire::enc(&self.frozen_behavior, w);
    w.pad(2);
    Wire::enc(&self.request_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.real_world_time = Wire::dec(r)?;
    self.reason = Wire::dec(r)?;
    self.frozen_behavior = Wire::dec(r)?;
    r.skip(2)?;
    self.request_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.real_world_time, &o.real_world_time) { return Some(format!(".real_world_time{d}")); }
    if let Some(d) = Wire::diff(&self.reason, &o.reason) { return Some(format!(".reason{d}")); }
    if let Some(d) = Wire::diff(&self.frozen_behavior, &o.frozen_behavior) { return Some(format!(".frozen_behavior{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.real_world_time = Wire::dup(&self.real_world_time);
    o.reason = Wire::dup(&self.reason);
    o.frozen_behavior = Wire::dup(&self.frozen_behavior);
    o.request_id = Wire::dup(&self.request_id);
  }
}
impl PduSpec for AcknowledgePdu { const NAME: &'static str = "AcknowledgePdu"; const TYPE: (PduType, u8) = (PduType::Acknowledge, 15); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "acknowledge_flag", "response_flag", "request_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(20);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.acknowledge_flag = Wire::gen(g); }
    3 => { self.response_flag = Wire::gen(g); }
    4 => { self.request_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.acknowledge_flag, w);
    Wire::enc(&self.response_flag, w);
    Wire::enc(&self.request_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.acknowledge_flag = Wire::dec(r)?;
    self.response_flag = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.acknowledge_flag, &o.acknowledge_flag) { return Some(format!(".acknowledge_flag{d}")); }
    if let Some(d) = Wire::diff(&self.response_flag, &o.response_flag) { return Some(format!(".response_flag{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.acknowledge_flag = Wire::dup(&self.acknowledge_flag);
    o.response_flag = Wire::dup(&self.response_flag);
    o.request_id = Wire::dup(&self.request_id);
  }
}
impl PduSpec for ActionRequestPdu { const NAME: &'static str = "ActionRequestPdu"; const TYPE: (PduType, u8) = (PduType::ActionRequest, 16); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id", "action_id", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[6, 7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.action_id = Wire::gen(g); }
    4 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    5 => { self.number_of_variable_datum_records = Wire::gen(g); }
    6 => { self.fixed_datum_records = g.list(4294967295); }
    7 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.action_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.action_id = Wire::dec(r)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.action_id, &o.action_id) { return Some(format!(".action_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.action_id = Wire::dup(&self.action_id);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for ActionResponsePdu { const NAME: &'static str = "ActionResponsePdu"; const TYPE: (PduType, u8) = (PduType::ActionResponse, 17); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id", "request_status", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[6, 7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.request_status = Wire::gen(g); }
    4 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    5 => { self.number_of_variable_datum_records = Wire::gen(g); }
    6 => { self.fixed_datum_records = g.list(4294967295); }
    7 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.request_status, w);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.request_status = Wire::dec(r)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_status, &o.request_status) { return Some(format!(".request_status{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.request_status = Wire::dup(&self.request_status);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for DataQueryPdu { const NAME: &'static str = "DataQueryPdu"; const TYPE: (PduType, u8) = (PduType::DataQuery, 18); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id", "time_interval", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[6, 7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.time_interval = Wire::gen(g); }
    4 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    5 => { self.number_of_variable_datum_records = Wire::gen(g); }
    6 => { self.fixed_datum_records = g.list(4294967295); }
    7 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.time_interval, w);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.time_interval = Wire::dec(r)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.time_interval, &o.time_interval) { return Some(format!(".time_interval{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.time_interval = Wire::dup(&self.time_interval);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for SetDataPdu { const NAME: &'static str = "SetDataPdu"; const TYPE: (PduType, u8) = (PduType::SetData, 19); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[5, 6];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    4 => { self.number_of_variable_datum_records = Wire::gen(g); }
    5 => { self.fixed_datum_records = g.list(4294967295); }
    6 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
    w.pad(4);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    r.skip(4)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for DataPdu { const NAME: &'static str = "DataPdu"; const TYPE: (PduType, u8) = (PduType::Data, 20); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[5, 6];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    4 => { self.number_of_variable_datum_records = Wire::gen(g); }
    5 => { self.fixed_datum_records = g.list(4294967295); }
    6 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
    w.pad(4);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    r.skip(4)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for EventReportPdu { const NAME: &'static str = "EventReportPdu"; const TYPE: (PduType, u8) = (PduType::EventReport, 21); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "event_type", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[5, 6];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.event_type = Wire::gen(g); }
    3 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    4 => { self.number_of_variable_datum_records = Wire::gen(g); }
    5 => { self.fixed_datum_records = g.list(4294967295); }
    6 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.event_type, w);
    w.pad(4);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.event_type = Wire::dec(r)?;
    r.skip(4)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.event_type, &o.event_type) { return Some(format!(".event_type{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.event_type = Wire::dup(&self.event_type);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for CommentPdu { const NAME: &'static str = "CommentPdu"; const TYPE: (PduType, u8) = (PduType::Comment, 22); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagement, 5);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[4, 5];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    3 => { self.number_of_variable_datum_records = Wire::gen(g); }
    4 => { self.fixed_datum_records = g.list(4294967295); }
    5 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for ElectromagneticEmissionsPdu { const NAME: &'static str = "ElectromagneticEmissionsPdu"; const TYPE: (PduType, u8) = (PduType::ElectromagneticEmission, 23); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::DistributedEmissionRegeneration, 6);
  const FIELDS: &'static [&'static str] = &["emitting_entity_id", "event_id", "state_update_indicator", "number_of_systems", "systems"];
  const LISTS: &'static [usize] = &[4];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.emitting_entity_id = Wire::gen(g); }
    1 => { self.event_id = Wire::gen(g); }
    2 => { self.state_update_indicator = Wire::gen(g); }
    3 => { self.number_of_systems = Wire::gen(g); }
    4 => { self.systems = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_systems = self.systems.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.systems.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.emitting_entity_id, w);
    Wire::enc(&self.event_id, w);
    Wire::enc(&self.state_update_indicator, w);
    w.mark_count();
    Wire::enc(&self.number_of_systems, w);
    w.pad(2);
    w.enter_list(); for x in &self.systems { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.emitting_entity_id = Wire::dec(r)?;
    self.event_id = Wire::dec(r)?;
    self.state_update_indicator = Wire::dec(r)?;
    self.number_of_systems = Wire::dec(r)?;
    r.skip(2)?;
    self.systems = { let n = self.number_of_systems as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.emitting_entity_id, &o.emitting_entity_id) { return Some(format!(".emitting_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.event_id, &o.event_id) { return Some(format!(".event_id{d}")); }
    if let Some(d) = Wire::diff(&self.state_update_indicator, &o.state_update_indicator) { return Some(format!(".state_update_indicator{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_systems, &o.number_of_systems) { return Some(format!(".number_of_systems{d}")); }
    if let Some(d) = Wire::diff(&self.systems, &o.systems) { return Some(format!(".systems{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.emitting_entity_id = Wire::dup(&self.emitting_entity_id);
    o.event_id = Wire::dup(&self.event_id);
    o.state_update_indicator = Wire::dup(&self.state_update_indicator);
    o.number_of_systems = Wire::dup(&self.number_of_systems);
    o.systems = Wire::dup(&self.systems);
  }
}
impl PduSpec for DesignatorPdu { const NAME: &'static str = "DesignatorPdu"; const TYPE: (PduType, u8) = (PduType::Designator, 24); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::DistributedEmissionRegeneration, 6);
  const FIELDS: &'static [&'static str] = &["designating_entity_id", "code_name", "designated_entity_id", "designator_code", "designator_power", "designator_wavelength", "designator_spot_wrt_designated", "designator_spot_location", "dead_reckoning_algorithm", "entity_linear_acceleration"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(76);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.designating_entity_id = Wire::gen(g); }
    1 => { self.code_name = Wire::gen(g); }
    2 => { self.designated_entity_id = Wire::gen(g); }
    3 => { self.designator_code = Wire::gen(g); }
    4 => { self.designator_power = Wire::gen(g); }
    5 => { self.designator_wavelength = Wire::gen(g); }
    6 => { self.designator_spot_wrt_designated = Wire::gen(g); }
    7 => { self.designator_spot_location = Wire::gen(g); }
    8 => { self.dead_reckoning_algorithm = Wire::gen(g); }
    9 => { self.entity_linear_acceleration = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.designating_entity_id, w);
    Wire::enc(&self.code_name, w);
    Wire::enc(&self.designated_entity_id, w);
    Wire::enc(&self.designator_code, w);
    Wire::enc(&self.designator_power, w);
    Wire::enc(&self.designator_wavelength, w);
    Wire::enc(&self.designator_spot_wrt_designated, w);
    Wire::enc(&self.designator_spot_location, w);
    Wire::enc(&self.dead_reckoning_algorithm, w);
    w.pad(1);
    w.pad(2);
    Wire::enc(&self.entity_linear_acceleration, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.designating_entity_id = Wire::dec(r)?;
    self.code_name = Wire::dec(r)?;
    self.designated_entity_id = Wire::dec(r)?;
    self.designator_code = Wire::dec(r)?;
    self.designator_power = Wire::dec(r)?;
    self.designator_wavelength = Wire::dec(r)?;
    self.designator_spot_wrt_designated = Wire::dec(r)?;
    self.designator_spot_location = Wire::dec(r)?;
    self.dead_reckoning_algorithm = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.entity_linear_acceleration = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.designating_entity_id, &o.designating_entity_id) { return Some(format!(".designating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.code_name, &o.code_name) { return Some(format!(".code_name{d}")); }
    if let Some(d) = Wire::diff(&self.designated_entity_id, &o.designated_entity_id) { return Some(format!(".designated_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.designator_code, &o.designator_code) { return Some(format!(".designator_code{d}")); }
    if let Some(d) = Wire::diff(&self.designator_power, &o.designator_power) { return Some(format!(".designator_power{d}")); }
    if let Some(d) = Wire::diff(&self.designator_wavelength, &o.designator_wavelength) { return Some(format!(".designator_wavelength{d}")); }
    if let Some(d) = Wire::diff(&self.designator_spot_wrt_designated, &o.designator_spot_wrt_designated) { return Some(format!(".designator_spot_wrt_designated{d}")); }
    if let Some(d) = Wire::diff(&self.designator_spot_location, &o.designator_spot_location) { return Some(format!(".designator_spot_location{d}")); }
    if let Some(d) = Wire::diff(&self.dead_reckoning_algorithm, &o.dead_reckoning_algorithm) { return Some(format!(".dead_reckoning_algorithm{d}")); }
    if let Some(d) = Wire::diff(&self.entity_linear_acceleration, &o.entity_linear_acceleration) { return Some(format!(".entity_linear_acceleration{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.designating_entity_id = Wire::dup(&self.designating_entity_id);
    o.code_name = Wire::dup(&self.code_name);
    o.designated_entity_id = Wire::dup(&self.designated_entity_id);
    o.designator_code = Wire::dup(&self.designator_code);
    o.designator_power = Wire::dup(&self.designator_power);
    o.designator_wavelength = Wire::dup(&self.designator_wavelength);
    o.designator_spot_wrt_designated = Wire::dup(&self.designator_spot_wrt_designated);
    o.designator_spot_location = Wire::dup(&self.designator_spot_location);
    o.dead_reckoning_algorithm = Wire::dup(&self.dead_reckoning_algorithm);
    o.entity_linear_acceleration = Wire::dup(&self.entity_linear_acceleration);
  }
}
impl PduSpec for UnderwaterAcousticPdu { const NAME: &'static str = "UnderwaterAcousticPdu"; const TYPE: (PduType, u8) = (PduType::UnderwaterAcoustic, 29); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::DistributedEmissionRegeneration, 6);
  const FIELDS: &'static [&'static str] = &["emitting_entity_id", "event_id", "state_change_update_indicator", "passive_parameter_index", "propulsion_plant_configuration", "number_of_shafts", "number_of_apas", "number_of_ua_emitter_systems", "shaft_rpms", "apa_data", "emitter_systems"];
  const LISTS: &'static [usize] = &[8, 9, 10];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.emitting_entity_id = Wire::gen(g); }
    1 => { self.event_id = Wire::gen(g); }
    2 => { self.state_change_update_indicator = Wire::gen(g); }
    3 => { self.passive_parameter_index = Wire::gen(g); }
    4 => { self.propulsion_plant_configuration = Wire::gen(g); }
    5 => { self.number_of_shafts = Wire::gen(g); }
    6 => { self.number_of_apas = Wire::gen(g); }
    7 => { self.number_of_ua_emitter_systems = Wire::gen(g); }
    8 => { self.shaft_rpms = g.list(255); }
    9 => { self.apa_data = g.list(255); }
    10 => { self.emitter_systems = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_shafts = self.shaft_rpms.len() as u8;
    self.number_of_apas = self.apa_data.len() as u8;
    self.number_of_ua_emitter_systems = self.emitter_systems.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.shaft_rpms.truncate(keep);
    self.apa_data.truncate(keep);
    self.emitter_systems.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.emitting_entity_id, w);
    Wire::enc(&self.event_id, w);
    Wire::enc(&self.state_change_update_indicator, w);
    w.pad(1);
    Wire::enc(&self.passive_parameter_index, w);
    Wire::enc(&self.propulsion_plant_configuration, w);
    w.mark_count();
    Wire::enc(&self.number_of_shafts, w);
    w.mark_count();
    Wire::enc(&self.number_of_apas, w);
    w.mark_count();
    Wire::enc(&self.number_of_ua_emitter_systems, w);
    w.enter_list(); for x in &self.shaft_rpms { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.apa_data { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.emitter_systems { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.emitting_entity_id = Wire::dec(r)?;
    self.event_id = Wire::dec(r)?;
    self.state_change_update_indicator = Wire::dec(r)?;
    r.skip(1)?;
    self.passive_parameter_index = Wire::dec(r)?;
    self.propulsion_plant_configuration = Wire::dec(r)?;
    self.number_of_shafts = Wire::dec(r)?;
    self.number_of_apas = Wire::dec(r)?;
    self.number_of_ua_emitter_systems = Wire::dec(r)?;
    self.shaft_rpms = { let n = self.number_of_shafts as u64; r.list(n)? };
    self.apa_data = { let n = self.number_of_apas as u64; r.list(n)? };
    self.emitter_systems = { let n = self.number_of_ua_emitter_systems as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.emitting_entity_id, &o.emitting_entity_id) { return Some(format!(".emitting_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.event_id, &o.event_id) { return Some(format!(".event_id{d}")); }
    if let Some(d) = Wire::diff(&self.state_change_update_indicator, &o.state_change_update_indicator) { return Some(format!(".state_change_update_indicator{d}")); }
    if let Some(d) = Wire::diff(&self.passive_parameter_index, &o.passive_parameter_index) { return Some(format!(".passive_parameter_index{d}")); }
    if let Some(d) = Wire::diff(&self.propulsion_plant_configuration, &o.propulsion_plant_configuration) { return Some(format!(".propulsion_plant_configuration{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_shafts, &o.number_of_shafts) { return Some(format!(".number_of_shafts{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_apas, &o.number_of_apas) { return Some(format!(".number_of_apas{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_ua_emitter_systems, &o.number_of_ua_emitter_systems) { return Some(format!(".number_of_ua_emitter_systems{d}")); }
    if let Some(d) = Wire::diff(&self.shaft_rpms, &o.shaft_rpms) { return Some(format!(".shaft_rpms{d}")); }
    if let Some(d) = Wire::diff(&self.apa_data, &o.apa_data) { return Some(format!(".apa_data{d}")); }
    if let Some(d) = Wire::diff(&self.emitter_systems, &o.emitter_systems) { return Some(format!(".emitter_systems{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.emitting_entity_id = Wire::dup(&self.emitting_entity_id);
    o.event_id = Wire::dup(&self.event_id);
    o.state_change_update_indicator = Wire::dup(&self.state_change_update_indicator);
    o.passive_parameter_index = Wire::dup(&self.passive_parameter_index);
    o.propulsion_plant_configuration = Wire::dup(&self.propulsion_plant_configuration);
    o.number_of_shafts = Wire::dup(&self.number_of_shafts);
    o.number_of_apas = Wire::dup(&self.number_of_apas);
    o.number_of_ua_emitter_systems = Wire::dup(&self.number_of_ua_emitter_systems);
    o.shaft_rpms = Wire::dup(&self.shaft_rpms);
    o.apa_data = Wire::dup(&self.apa_data);
    o.emitter_systems = Wire::dup(&self.emitter_systems);
  }
}
impl PduSpec for IFFPdu { const NAME: &'static str = "IFFPdu"; const TYPE: (PduType, u8) = (PduType::IFF, 28); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::DistributedEmissionRegeneration, 6);
  const FIELDS: &'static [&'static str] = &["emitting_entity_id", "event_id", "relative_antenna_location", "system_id", "system_designator", "system_specific_data", "fundamental_operational_data", "layer_header", "beam_data", "secondary_operational_data", "iff_parameters"];
  const LISTS: &'static [usize] = &[10];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.emitting_entity_id = Wire::gen(g); }
    1 => { self.event_id = Wire::gen(g); }
    2 => { self.relative_antenna_location = Wire::gen(g); }
    3 => { self.system_id = Wire::gen(g); }
    4 => { self.system_designator = Wire::gen(g); }
    5 => { self.system_specific_data = Wire::gen(g); }
    6 => { self.fundamental_operational_data = Wire::gen(g); }
    7 => { self.layer_header = Wire::gen(g); }
    8 => { self.beam_data = Wire::gen(g); }
    9 => { self.secondary_operational_data = Wire::gen(g); }
    10 => { self.iff_parameters = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.secondary_operational_data.number_of_iff_fundamental_parameter_records = self.iff_parameters.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.iff_parameters.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.emitting_entity_id, w);
    Wire::enc(&self.event_id, w);
    Wire::enc(&self.relative_antenna_location, w);
    Wire::enc(&self.system_id, w);
    Wire::enc(&self.system_designator, w);
    Wire::enc(&self.system_specific_data, w);
    Wire::enc(&self.fundamental_operational_data, w);
    Wire::enc(&self.layer_header, w);
    Wire::enc(&self.beam_data, w);
    Wire::enc(&self.secondary_operational_data, w);
    w.enter_list(); for x in &self.iff_parameters { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.emitting_entity_id = Wire::dec(r)?;
    self.event_id = Wire::dec(r)?;
    self.relative_antenna_location = Wire::dec(r)?;
    self.system_id = Wire::dec(r)?;
    self.system_designator = Wire::dec(r)?;
    self.system_specific_data = Wire::dec(r)?;
    self.fundamental_operational_data = Wire::dec(r)?;
    self.layer_header = Wire::dec(r)?;
    self.beam_data = Wire::dec(r)?;
    self.secondary_operational_data = Wire::dec(r)?;
    self.iff_parameters = { let n = self.secondary_operational_data.number_of_iff_fundamental_parameter_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.emitting_entity_id, &o.emitting_entity_id) { return Some(format!(".emitting_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.event_id, &o.event_id) { return Some(format!(".event_id{d}")); }
    if let Some(d) = Wire::diff(&self.relative_antenna_location, &o.relative_antenna_location) { return Some(format!(".relative_antenna_location{d}")); }
    if let Some(d) = Wire::diff(&self.system_id, &o.system_id) { return Some(format!(".system_id{d}")); }
    if let Some(d) = Wire::diff(&self.system_designator, &o.system_designator) { return Some(format!(".system_designator{d}")); }
    if let Some(d) = Wire::diff(&self.system_specific_data, &o.system_specific_data) { return Some(format!(".system_specific_data{d}")); }
    if let Some(d) = Wire::diff(&self.fundamental_operational_data, &o.fundamental_operational_data) { return Some(format!(".fundamental_operational_data{d}")); }
    if let Some(d) = Wire::diff(&self.layer_header, &o.layer_header) { return Some(format!(".layer_header{d}")); }
    if let Some(d) = Wire::diff(&self.beam_data, &o.beam_data) { return Some(format!(".beam_data{d}")); }
    if let Some(d) = Wire::diff(&self.secondary_operational_data, &o.secondary_operational_data) { return Some(format!(".secondary_operational_data{d}")); }
    if let Some(d) = Wire::diff(&self.iff_parameters, &o.iff_parameters) { return Some(format!(".iff_parameters{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.emitting_entity_id = Wire::dup(&self.emitting_entity_id);
    o.event_id = Wire::dup(&self.event_id);
    o.relative_antenna_location = Wire::dup(&self.relative_antenna_location);
    o.system_id = Wire::dup(&self.system_id);
    o.system_designator = Wire::dup(&self.system_designator);
    o.system_specific_data = Wire::dup(&self.system_specific_data);
    o.fundamental_operational_data = Wire::dup(&self.fundamental_operational_data);
    o.layer_header = Wire::dup(&self.layer_header);
    o.beam_data = Wire::dup(&self.beam_data);
    o.secondary_operational_data = Wire::dup(&self.secondary_operational_data);
    o.iff_parameters = Wire::dup(&self.iff_parameters);
  }
}
impl PduSpec for SupplementalEmissionPdu { const NAME: &'static str = "SupplementalEmissionPdu"; const TYPE: (PduType, u8) = (PduType::SupplementalEmission, 30); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::DistributedEmissionRegeneration, 6);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "infrared_signature_representation_index", "acoustic_signature_representation_index", "radar_cross_section_signature_representation_index", "number_of_propulsion_systems", "number_of_vectoring_nozzle_systems", "propulsion_system_data", "vectoring_nozzle_system_data"];
  const LISTS: &'static [usize] = &[6, 7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.infrared_signature_representation_index = Wire::gen(g); }
    2 => { self.acoustic_signature_representation_index = Wire::gen(g); }
    3 => { self.radar_cross_section_signature_representation_index = Wire::gen(g); }
    4 => { self.number_of_propulsion_systems = Wire::gen(g); }
    5 => { self.number_of_vectoring_nozzle_systems = Wire::gen(g); }
    6 => { self.propulsion_system_data = g.list(65535); }
    7 => { self.vectoring_nozzle_system_data = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_propulsion_systems = self.propulsion_system_data.len() as u16;
    self.number_of_vectoring_nozzle_systems = self.vectoring_nozzle_system_data.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.propulsion_system_data.truncate(keep);
    self.vectoring_nozzle_system_data.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.infrared_signature_representation_index, w);
    Wire::enc(&self.acoustic_signature_representation_index, w);
    Wire::enc(&self.radar_cross_section_signature_representation_index, w);
    w.mark_count();
    Wire::enc(&self.number_of_propulsion_systems, w);
    w.mark_count();
    Wire::enc(&self.number_of_vectoring_nozzle_systems, w);
    w.enter_list(); for x in &self.propulsion_system_data { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.vectoring_nozzle_system_data { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.infrared_signature_representation_index = Wire::dec(r)?;
    self.acoustic_signature_representation_index = Wire::dec(r)?;
    self.radar_cross_section_signature_representation_index = Wire::dec(r)?;
    self.number_of_propulsion_systems = Wire::dec(r)?;
    self.number_of_vectoring_nozzle_systems = Wire::dec(r)?;
    self.propulsion_system_data = { let n = self.number_of_propulsion_systems as u64; r.list(n)? };
    self.vectoring_nozzle_system_data = { let n = self.number_of_vectoring_nozzle_systems as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.infrared_signature_representation_index, &o.infrared_signature_representation_index) { return Some(format!(".infrared_signature_representation_index{d}")); }
    if let Some(d) = Wire::diff(&self.acoustic_signature_representation_index, &o.acoustic_signature_representation_index) { return Some(format!(".acoustic_signature_representation_index{d}")); }
    if let Some(d) = Wire::diff(&self.radar_cross_section_signature_representation_index, &o.radar_cross_section_signature_representation_index) { return Some(format!(".radar_cross_section_signature_representation_index{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_propulsion_systems, &o.number_of_propulsion_systems) { return Some(format!(".number_of_propulsion_systems{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_vectoring_nozzle_systems, &o.number_of_vectoring_nozzle_systems) { return Some(format!(".number_of_vectoring_nozzle_systems{d}")); }
    if let Some(d) = Wire::diff(&self.propulsion_system_data, &o.propulsion_system_data) { return Some(format!(".propulsion_system_data{d}")); }
    if let Some(d) = Wire::diff(&self.vectoring_nozzle_system_data, &o.vectoring_nozzle_system_data) { return Some(format!(".vectoring_nozzle_system_data{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.infrared_signature_representation_index = Wire::dup(&self.infrared_signature_representation_index);
    o.acoustic_signature_representation_index = Wire::dup(&self.acoustic_signature_representation_index);
    o.radar_cross_section_signature_representation_index = Wire::dup(&self.radar_cross_section_signature_representation_index);
    o.number_of_propulsion_systems = Wire::dup(&self.number_of_propulsion_systems);
    o.number_of_vectoring_nozzle_systems = Wire::dup(&self.number_of_vectoring_nozzle_systems);
    o.propulsion_system_data = Wire::dup(&self.propulsion_system_data);
    o.vectoring_nozzle_system_data = Wire::dup(&self.vectoring_nozzle_system_data);
  }
}
impl PduSpec for TransmitterPdu { const NAME: &'static str = "TransmitterPdu"; const TYPE: (PduType, u8) = (PduType::Transmitter, 25); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::RadioCommunications, 4);
  const FIELDS: &'static [&'static str] = &["entity_id", "radio_id", "radio_entity_type", "transmit_state", "input_source", "number_of_variable_transmitter_parameters_records", "antenna_location", "relative_antenna_location", "antenna_pattern_type", "antenna_pattern_length", "frequency", "transmit_frequency_bandwidth", "power", "modulation_type", "crypto_system", "crypto_key_id", "modulation_parameter_length", "modulation_parameters", "antenna_pattern", "variable_transmitter_parameters"];
  const LISTS: &'static [usize] = &[19];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.entity_id = Wire::gen(g); }
    1 => { self.radio_id = Wire::gen(g); }
    2 => { self.radio_entity_type = Wire::gen(g); }
    3 => { self.transmit_state = Wire::gen(g); }
    4 => { self.input_source = Wire::gen(g); }
    5 => { self.number_of_variable_transmitter_parameters_records = Wire::gen(g); }
    6 => { self.antenna_location = Wire::gen(g); }
    7 => { self.relative_antenna_location = Wire::gen(g); }
    8 => { self.antenna_pattern_type = Wire::gen(g); }
    9 => { self.antenna_pattern_length = Wire::gen(g); }
    10 => { self.frequency = Wire::gen(g); }
    11 => { self.transmit_frequency_bandwidth = Wire::gen(g); }
    12 => { self.power = Wire::gen(g); }
    13 => { self.modulation_type = Wire::gen(g); }
    14 => { self.crypto_system = Wire::gen(g); }
    15 => { self.crypto_key_id = Wire::gen(g); }
    16 => { self.modulation_parameter_length = Wire::gen(g); }
    17 => { self.modulation_parameters = g.opt(); }
    18 => { self.antenna_pattern = g.opt(); }
    19 => { self.variable_transmitter_parameters = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.modulation_parameter_length = self.modulation_parameters.as_ref().map_or(0, |b| blob_len(b)) as u8;
    self.antenna_pattern_length = self.antenna_pattern.as_ref().map_or(0, |b| blob_len(b)) as u16;
    self.number_of_variable_transmitter_parameters_records = self.variable_transmitter_parameters.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.variable_transmitter_parameters.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.entity_id, w);
    Wire::enc(&self.radio_id, w);
    Wire::enc(&self.radio_entity_type, w);
    Wire::enc(&self.transmit_state, w);
    Wire::enc(&self.input_source, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_transmitter_parameters_records, w);
    Wire::enc(&self.antenna_location, w);
    Wire::enc(&self.relative_antenna_location, w);
    Wire::enc(&self.antenna_pattern_type, w);
    w.int(2, self.antenna_pattern.as_ref().map_or(0, |b| blob_len(b)) as u64);
    Wire::enc(&self.frequency, w);
    Wire::enc(&self.transmit_frequency_bandwidth, w);
    Wire::enc(&self.power, w);
    Wire::enc(&self.modulation_type, w);
    Wire::enc(&self.crypto_system, w);
    Wire::enc(&self.crypto_key_id, w);
    w.int(1, self.modulation_parameters.as_ref().map_or(0, |b| blob_len(b)) as u64);
    w.pad(1);
    w.pad(2);
    if let Some(x) = &self.modulation_parameters { Wire::enc(x, w); }
    if let Some(x) = &self.antenna_pattern { Wire::enc(x, w); }
    w.enter_list(); for x in &self.variable_transmitter_parameters { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.entity_id = Wire::dec(r)?;
    self.radio_id = Wire::dec(r)?;
    self.radio_entity_type = Wire::dec(r)?;
    self.transmit_state = Wire::dec(r)?;
    self.input_source = Wire::dec(r)?;
    self.number_of_variable_transmitter_parameters_records = Wire::dec(r)?;
    self.antenna_location = Wire::dec(r)?;
    self.relative_antenna_location = Wire::dec(r)?;
    self.antenna_pattern_type = Wire::dec(r)?;
    self.antenna_pattern_length = Wire::dec(r)?;
    self.frequency = Wire::dec(r)?;
    self.transmit_frequency_bandwidth = Wire::dec(r)?;
    self.power = Wire::dec(r)?;
    self.modulation_type = Wire::dec(r)?;
    self.crypto_system = Wire::dec(r)?;
    self.crypto_key_id = Wire::dec(r)?;
    self.modulation_parameter_length = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.modulation_parameters = r.opt(self.modulation_parameter_length as usize)?;
    self.antenna_pattern = r.opt(self.antenna_pattern_length as usize)?;
    self.variable_transmitter_parameters = { let n = self.number_of_variable_transmitter_parameters_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.entity_id, &o.entity_id) { return Some(format!(".entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.radio_id, &o.radio_id) { return Some(format!(".radio_id{d}")); }
    if let Some(d) = Wire::diff(&self.radio_entity_type, &o.radio_entity_type) { return Some(format!(".radio_entity_type{d}")); }
    if let Some(d) = Wire::diff(&self.transmit_state, &o.transmit_state) { return Some(format!(".transmit_state{d}")); }
    if let Some(d) = Wire::diff(&self.input_source, &o.input_source) { return Some(format!(".input_source{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_transmitter_parameters_records, &o.number_of_variable_transmitter_parameters_records) { return Some(format!(".number_of_variable_transmitter_parameters_records{d}")); }
    if let Some(d) = Wire::diff(&self.antenna_location, &o.antenna_location) { return Some(format!(".antenna_location{d}")); }
    if let Some(d) = Wire::diff(&self.relative_antenna_location, &o.relative_antenna_location) { return Some(format!(".relative_antenna_location{d}")); }
    if let Some(d) = Wire::diff(&self.antenna_pattern_type, &o.antenna_pattern_type) { return Some(format!(".antenna_pattern_type{d}")); }
    if let Some(d) = Wire::diff(&self.antenna_pattern_length, &o.antenna_pattern_length) { return Some(format!(".antenna_pattern_length{d}")); }
    if let Some(d) = Wire::diff(&self.frequency, &o.frequency) { return Some(format!(".frequency{d}")); }
    if let Some(d) = Wire::diff(&self.transmit_frequency_bandwidth, &o.transmit_frequency_bandwidth) { return Some(format!(".transmit_frequency_bandwidth{d}")); }
    if let Some(d) = Wire::diff(&self.power, &o.power) { return Some(format!(".power{d}")); }
    if let Some(d) = Wire::diff(&self.modulation_type, &o.modulation_type) { return Some(format!(".modulation_type{d}")); }
    if let Some(d) = Wire::diff(&self.crypto_system, &o.crypto_system) { return Some(format!(".crypto_system{d}")); }
    if let Some(d) = Wire::diff(&self.crypto_key_id, &o.crypto_key_id) { return Some(format!(".crypto_key_id{d}")); }
    if let Some(d) = Wire::diff(&self.modulation_parameter_length, &o.modulation_parameter_length) { return Some(format!(".modulation_parameter_length{d}")); }
    if let Some(d) = diff_opt(&self.modulation_parameters, &o.modulation_parameters) { return Some(format!(".modulation_parameters{d}")); }
    if let Some(d) = diff_opt(&self.antenna_pattern, &o.antenna_pattern) { return Some(format!(".antenna_pattern{d}")); }
    if let Some(d) = Wire::diff(&self.variable_transmitter_parameters, &o.variable_transmitter_parameters) { return Some(format!(".variable_transmitter_parameters{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.entity_id = Wire::dup(&self.entity_id);
    o.radio_id = Wire::dup(&self.radio_id);
    o.radio_entity_type = Wire::dup(&self.radio_entity_type);
    o.transmit_state = Wire::dup(&self.transmit_state);
    o.input_source = Wire::dup(&self.input_source);
    o.number_of_variable_transmitter_parameters_records = Wire::dup(&self.number_of_variable_transmitter_parameters_records);
    o.antenna_location = Wire::dup(&self.antenna_location);
    o.relative_antenna_location = Wire::dup(&self.relative_antenna_location);
    o.antenna_pattern_type = Wire::dup(&self.antenna_pattern_type);
    o.antenna_pattern_length = Wire::dup(&self.antenna_pattern_length);
    o.frequency = Wire::dup(&self.frequency);
    o.transmit_frequency_bandwidth = Wire::dup(&self.transmit_frequency_bandwidth);
    o.power = Wire::dup(&self.power);
    o.modulation_type = Wire::dup(&self.modulation_type);
    o.crypto_system = Wire::dup(&self.crypto_system);
    o.crypto_key_id = Wire::dup(&self.crypto_key_id);
    o.modulation_parameter_length = Wire::dup(&self.modulation_parameter_length);
    o.modulation_parameters = dup_opt(&self.modulation_parameters);
    o.antenna_pattern = dup_opt(&self.antenna_pattern);
    o.variable_transmitter_parameters = Wire::dup(&self.variable_transmitter_parameters);
  }
}
impl PduSpec for SignalPdu { const NAME: &'static str = "SignalPdu"; const TYPE: (PduType, u8) = (PduType::Signal, 26); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::RadioCommunications, 4);
  const FIELDS: &'static [&'static str] = &["entity_id", "radio_id", "encoding_scheme", "tdl_type", "sample_rate", "data_length", "samples", "data"];
  const LISTS: &'static [usize] = &[7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.entity_id = Wire::gen(g); }
    1 => { self.radio_id = Wire::gen(g); }
    2 => { self.encoding_scheme = Wire::gen(g); }
    3 => { self.tdl_type = Wire::gen(g); }
    4 => { self.sample_rate = Wire::gen(g); }
    5 => { self.data_length = Wire::gen(g); }
    6 => { self.samples = Wire::gen(g); }
    7 => { self.data = g.list(8191); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.data_length = bits_for(self.data.len(), self.data_length as u64) as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.data.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.entity_id, w);
    Wire::enc(&self.radio_id, w);
    Wire::enc(&self.encoding_scheme, w);
    Wire::enc(&self.tdl_type, w);
    Wire::enc(&self.sample_rate, w);
    w.mark_count();
    Wire::enc(&self.data_length, w);
    Wire::enc(&self.samples, w);
    w.enter_list(); for x in &self.data { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.entity_id = Wire::dec(r)?;
    self.radio_id = Wire::dec(r)?;
    self.encoding_scheme = Wire::dec(r)?;
    self.tdl_type = Wire::dec(r)?;
    self.sample_rate = Wire::dec(r)?;
    self.data_length = Wire::dec(r)?;
    self.samples = Wire::dec(r)?;
    self.data = { let n = (self.data_length as u64).div_ceil(8); r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.entity_id, &o.entity_id) { return Some(format!(".entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.radio_id, &o.radio_id) { return Some(format!(".radio_id{d}")); }
    if let Some(d) = Wire::diff(&self.encoding_scheme, &o.encoding_scheme) { return Some(format!(".encoding_scheme{d}")); }
    if let Some(d) = Wire::diff(&self.tdl_type, &o.tdl_type) { return Some(format!(".tdl_type{d}")); }
    if let Some(d) = Wire::diff(&self.sample_rate, &o.sample_rate) { return Some(format!(".sample_rate{d}")); }
    if let Some(d) = Wire::diff(&self.data_length, &o.data_length) { return Some(format!(".data_length{d}")); }
    if let Some(d) = Wire::diff(&self.samples, &o.samples) { return Some(format!(".samples{d}")); }
    if let Some(d) = Wire::diff(&self.data, &o.data) { return Some(format!(".data{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.entity_id = Wire::dup(&self.entity_id);
    o.radio_id = Wire::dup(&self.radio_id);
    o.encoding_scheme = Wire::dup(&self.encoding_scheme);
    o.tdl_type = Wire::dup(&self.tdl_type);
    o.sample_rate = Wire::dup(&self.sample_rate);
    o.data_length = Wire::dup(&self.data_length);
    o.samples = Wire::dup(&self.samples);
    o.data = Wire::dup(&self.data);
  }
}
impl PduSpec for ReceiverPdu { const NAME: &'static str = "ReceiverPdu"; const TYPE: (PduType, u8) = (PduType::Receiver, 27); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::RadioCommunications, 4);
  const FIELDS: &'static [&'static str] = &["entity_id", "radio_id", "receiver_state", "received_power", "transmitter_radio_reference_id", "transmitter_radio_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(24);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.entity_id = Wire::gen(g); }
    1 => { self.radio_id = Wire::gen(g); }
    2 => { self.receiver_state = Wire::gen(g); }
    3 => { self.received_power = Wire::gen(g); }
    4 => { self.transmitter_radio_reference_id = Wire::gen(g); }
    5 => { self.transmitter_radio_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.entity_id, w);
    Wire::enc(&self.radio_id, w);
    Wire::enc(&self.receiver_state, w);
    w.pad(2);
    Wire::enc(&self.received_power, w);
    Wire::enc(&self.transmitter_radio_reference_id, w);
    Wire::enc(&self.transmitter_radio_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.entity_id = Wire::dec(r)?;
    self.radio_id = Wire::dec(r)?;
    self.receiver_state = Wire::dec(r)?;
    r.skip(2)?;
    self.received_power = Wire::dec(r)?;
    self.transmitter_radio_reference_id = Wire::dec(r)?;
    self.transmitter_radio_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.entity_id, &o.entity_id) { return Some(format!(".entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.radio_id, &o.radio_id) { return Some(format!(".radio_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiver_state, &o.receiver_state) { return Some(format!(".receiver_state{d}")); }
    if let Some(d) = Wire::diff(&self.received_power, &o.received_power) { return Some(format!(".received_power{d}")); }
    if let Some(d) = Wire::diff(&self.transmitter_radio_reference_id, &o.transmitter_radio_reference_id) { return Some(format!(".transmitter_radio_reference_id{d}")); }
    if let Some(d) = Wire::diff(&self.transmitter_radio_id, &o.transmitter_radio_id) { return Some(format!(".transmitter_radio_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.entity_id = Wire::dup(&self.entity_id);
    o.radio_id = Wire::dup(&self.radio_id);
    o.receiver_state = Wire::dup(&self.receiver_state);
    o.received_power = Wire::dup(&self.received_power);
    o.transmitter_radio_reference_id = Wire::dup(&self.transmitter_radio_reference_id);
    o.transmitter_radio_id = Wire::dup(&self.transmitter_radio_id);
  }
}
impl PduSpec for IntercomSignalPdu { const NAME: &'static str = "IntercomSignalPdu"; const TYPE: (PduType, u8) = (PduType::IntercomSignal, 31); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::RadioCommunications, 4);
  const FIELDS: &'static [&'static str] = &["intercom_reference_id", "intercom_number", "encoding_scheme", "tdl_type", "sample_rate", "data_length", "samples", "data"];
  const LISTS: &'static [usize] = &[7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.intercom_reference_id = Wire::gen(g); }
    1 => { self.intercom_number = Wire::gen(g); }
    2 => { self.encoding_scheme = Wire::gen(g); }
    3 => { self.tdl_type = Wire::gen(g); }
    4 => { self.sample_rate = Wire::gen(g); }
    5 => { self.data_length = Wire::gen(g); }
    6 => { self.samples = Wire::gen(g); }
    7 => { self.data = g.list(8191); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.data_length = bits_for(self.data.len(), self.data_length as u64) as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.data.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.intercom_reference_id, w);
    Wire::enc(&self.intercom_number, w);
    Wire::enc(&self.encoding_scheme, w);
    Wire::enc(&self.tdl_type, w);
    Wire::enc(&self.sample_rate, w);
    w.mark_count();
    Wire::enc(&self.data_length, w);
    Wire::enc(&self.samples, w);
    w.enter_list(); for x in &self.data { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.intercom_reference_id = Wire::dec(r)?;
    self.intercom_number = Wire::dec(r)?;
    self.encoding_scheme = Wire::dec(r)?;
    self.tdl_type = Wire::dec(r)?;
    self.sample_rate = Wire::dec(r)?;
    self.data_length = Wire::dec(r)?;
    self.samples = Wire::dec(r)?;
    self.data = { let n = (self.data_length as u64).div_ceil(8); r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.intercom_reference_id, &o.intercom_reference_id) { return Some(format!(".intercom_reference_id{d}")); }
    if let Some(d) = Wire::diff(&self.intercom_number, &o.intercom_number) { return Some(format!(".intercom_number{d}")); }
    if let Some(d) = Wire::diff(&self.encoding_scheme, &o.encoding_scheme) { return Some(format!(".encoding_scheme{d}")); }
    if let Some(d) = Wire::diff(&self.tdl_type, &o.tdl_type) { return Some(format!(".tdl_type{d}")); }
    if let Some(d) = Wire::diff(&self.sample_rate, &o.sample_rate) { return Some(format!(".sample_rate{d}")); }
    if let Some(d) = Wire::diff(&self.data_length, &o.data_length) { return Some(format!(".data_length{d}")); }
    if let Some(d) = Wire::diff(&self.samples, &o.samples) { return Some(format!(".samples{d}")); }
    if let Some(d) = Wire::diff(&self.data, &o.data) { return Some(format!(".data{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.intercom_reference_id = Wire::dup(&self.intercom_reference_id);
    o.intercom_number = Wire::dup(&self.intercom_number);
    o.encoding_scheme = Wire::dup(&self.encoding_scheme);
    o.tdl_type = Wire::dup(&self.tdl_type);
    o.sample_rate = Wire::dup(&self.sample_rate);
    o.data_length = Wire::dup(&self.data_length);
    o.samples = Wire::dup(&self.samples);
    o.data = Wire::dup(&self.data);
  }
}
impl PduSpec for IntercomControlPdu { const NAME: &'static str = "IntercomControlPdu"; const TYPE: (PduType, u8) = (PduType::IntercomControl, 32); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::RadioCommunications, 4);
  const FIELDS: &'static [&'static str] = &["control_type", "communications_channel_type", "source_intercom_reference_id", "source_intercom_number", "source_line_id", "transmit_priority", "transmit_line_state", "command", "master_intercom_reference_id", "master_intercom_number", "master_channel_id", "intercom_parameters_length", "intercom_parameters"];
  const LISTS: &'static [usize] = &[12];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.control_type = Wire::gen(g); }
    1 => { self.communications_channel_type = Wire::gen(g); }
    2 => { self.source_intercom_reference_id = Wire::gen(g); }
    3 => { self.source_intercom_number = Wire::gen(g); }
    4 => { self.source_line_id = Wire::gen(g); }
    5 => { self.transmit_priority = Wire::gen(g); }
    6 => { self.transmit_line_state = Wire::gen(g); }
    7 => { self.command = Wire::gen(g); }
    8 => { self.master_intercom_reference_id = Wire::gen(g); }
    9 => { self.master_intercom_number = Wire::gen(g); }
    10 => { self.master_channel_id = Wire::gen(g); }
    11 => { self.intercom_parameters_length = Wire::gen(g); }
    12 => { self.intercom_parameters = g.list(536870911); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.intercom_parameters_length = (self.intercom_parameters.len() * 8) as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.intercom_parameters.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.control_type, w);
    Wire::enc(&self.communications_channel_type, w);
    Wire::enc(&self.source_intercom_reference_id, w);
    Wire::enc(&self.source_intercom_number, w);
    Wire::enc(&self.source_line_id, w);
    Wire::enc(&self.transmit_priority, w);
    Wire::enc(&self.transmit_line_state, w);
    Wire::enc(&self.command, w);
    Wire::enc(&self.master_intercom_reference_id, w);
    Wire::enc(&self.master_intercom_number, w);
    Wire::enc(&self.master_channel_id, w);
    w.mark_count();
    Wire::enc(&self.intercom_parameters_length, w);
    w.enter_list(); for x in &self.intercom_parameters { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.control_type = Wire::dec(r)?;
    self.communications_channel_type = Wire::dec(r)?;
    self.source_intercom_reference_id = Wire::dec(r)?;
    self.source_intercom_number = Wire::dec(r)?;
    self.source_line_id = Wire::dec(r)?;
    self.transmit_priority = Wire::dec(r)?;
    self.transmit_line_state = Wire::dec(r)?;
    self.command = Wire::dec(r)?;
    self.master_intercom_reference_id = Wire::dec(r)?;
    self.master_intercom_number = Wire::dec(r)?;
    self.master_channel_id = Wire::dec(r)?;
    self.intercom_parameters_length = Wire::dec(r)?;
    self.intercom_parameters = { let n = r.div8(self.intercom_parameters_length as u64); r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.control_type, &o.control_type) { return Some(format!(".control_type{d}")); }
    if let Some(d) = Wire::diff(&self.communications_channel_type, &o.communications_channel_type) { return Some(format!(".communications_channel_type{d}")); }
    if let Some(d) = Wire::diff(&self.source_intercom_reference_id, &o.source_intercom_reference_id) { return Some(format!(".source_intercom_reference_id{d}")); }
    if let Some(d) = Wire::diff(&self.source_intercom_number, &o.source_intercom_number) { return Some(format!(".source_intercom_number{d}")); }
    if let Some(d) = Wire::diff(&self.source_line_id, &o.source_line_id) { return Some(format!(".source_line_id{d}")); }
    if let Some(d) = Wire::diff(&self.transmit_priority, &o.transmit_priority) { return Some(format!(".transmit_priority{d}")); }
    if let Some(d) = Wire::diff(&self.transmit_line_state, &o.transmit_line_state) { return Some(format!(".transmit_line_state{d}")); }
    if let Some(d) = Wire::diff(&self.command, &o.command) { return Some(format!(".command{d}")); }
    if let Some(d) = Wire::diff(&self.master_intercom_reference_id, &o.master_intercom_reference_id) { return Some(format!(".master_intercom_reference_id{d}")); }
    if let Some(d) = Wire::diff(&self.master_intercom_number, &o.master_intercom_number) { return Some(format!(".master_intercom_number{d}")); }
    if let Some(d) = Wire::diff(&self.master_channel_id, &o.master_channel_id) { return Some(format!(".master_channel_id{d}")); }
    if let Some(d) = Wire::diff(&self.intercom_parameters_length, &o.intercom_parameters_length) { return Some(format!(".intercom_parameters_length{d}")); }
    if let Some(d) = Wire::diff(&self.intercom_parameters, &o.intercom_parameters) { return Some(format!(".intercom_parameters{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.control_type = Wire::dup(&self.control_type);
    o.communications_channel_type = Wire::dup(&self.communications_channel_type);
    o.source_intercom_reference_id = Wire::dup(&self.source_intercom_reference_id);
    o.source_intercom_number = Wire::dup(&self.source_intercom_number);
    o.source_line_id = Wire::dup(&self.source_line_id);
    o.transmit_priority = Wire::dup(&self.transmit_priority);
    o.transmit_line_state = Wire::dup(&self.transmit_line_state);
    o.command = Wire::dup(&self.command);
    o.master_intercom_reference_id = Wire::dup(&self.master_intercom_reference_id);
    o.master_intercom_number = Wire::dup(&self.master_intercom_number);
    o.master_channel_id = Wire::dup(&self.master_channel_id);
    o.intercom_parameters_length = Wire::dup(&self.intercom_parameters_length);
    o.intercom_parameters = Wire::dup(&self.intercom_parameters);
  }
}
impl PduSpec for AggregateStatePdu { const NAME: &'static str = "AggregateStatePdu"; const TYPE: (PduType, u8) = (PduType::AggregateState, 33); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::EntityManagement, 7);
  const FIELDS: &'static [&'static str] = &["aggregate_id", "force_id", "aggregate_state", "aggregate_type", "formation", "aggregate_marking", "dimensions", "orientation", "center_of_mass", "velocity", "number_of_dis_aggregates", "number_of_dis_entities", "number_of_silent_aggregate_types", "number_of_silent_entity_types", "aggregate_id_list", "entity_id_list", "silent_aggregate_system_list", "silent_entity_system_list", "number_of_variable_datum_records", "variable_datum_list"];
  const LISTS: &'static [usize] = &[14, 15, 16, 17, 19];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.aggregate_id = Wire::gen(g); }
    1 => { self.force_id = Wire::gen(g); }
    2 => { self.aggregate_state = Wire::gen(g); }
    3 => { self.aggregate_type = Wire::gen(g); }
    4 => { self.formation = Wire::gen(g); }
    5 => { self.aggregate_marking = Wire::gen(g); }
    6 => { self.dimensions = Wire::gen(g); }
    7 => { self.orientation = Wire::gen(g); }
    8 => { self.center_of_mass = Wire::gen(g); }
    9 => { self.velocity = Wire::gen(g); }
    10 => { self.number_of_dis_aggregates = Wire::gen(g); }
    11 => { self.number_of_dis_entities = Wire::gen(g); }
    12 => { self.number_of_silent_aggregate_types = Wire::gen(g); }
    13 => { self.number_of_silent_entity_types = Wire::gen(g); }
    14 => { self.aggregate_id_list = g.list(65535); }
    15 => { self.entity_id_list = g.list(65535); }
    16 => { self.silent_aggregate_system_list = g.list(65535); }
    17 => { self.silent_entity_system_list = g.list(65535); }
    18 => { self.number_of_variable_datum_records = Wire::gen(g); }
    19 => { self.variable_datum_list = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_dis_aggregates = self.aggregate_id_list.len() as u16;
    self.number_of_dis_entities = self.entity_id_list.len() as u16;
    self.number_of_silent_aggregate_types = self.silent_aggregate_system_list.len() as u16;
    self.number_of_silent_entity_types = self.silent_entity_system_list.len() as u16;
    self.number_of_variable_datum_records = self.variable_datum_list.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.aggregate_id_list.truncate(keep);
    self.entity_id_list.truncate(keep);
    self.silent_aggregate_system_list.truncate(keep);
    self.silent_entity_system_list.truncate(keep);
    self.variable_datum_list.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.aggregate_id, w);
    Wire::enc(&self.force_id, w);
    Wire::enc(&self.aggregate_state, w);
    Wire::enc(&self.aggregate_type, w);
    Wire::enc(&self.formation, w);
    Wire::enc(&self.aggregate_marking, w);
    Wire::enc(&self.dimensions, w);
    Wire::enc(&self.orientation, w);
    Wire::enc(&self.center_of_mass, w);
    Wire::enc(&self.velocity, w);
    w.mark_count();
    Wire::enc(&self.number_of_dis_aggregates, w);
    w.mark_count();
    Wire::enc(&self.number_of_dis_entities, w);
    w.mark_count();
    Wire::enc(&self.number_of_silent_aggregate_types, w);
    w.mark_count();
    Wire::enc(&self.number_of_silent_entity_types, w);
    w.enter_list(); for x in &self.aggregate_id_list { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.entity_id_list { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.silent_aggregate_system_list { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.silent_entity_system_list { Wire::enc(x, w); } w.leave_list();
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.variable_datum_list { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.aggregate_id = Wire::dec(r)?;
    self.force_id = Wire::dec(r)?;
    self.aggregate_state = Wire::dec(r)?;
    self.aggregate_type = Wire::dec(r)?;
    self.formation = Wire::dec(r)?;
    self.aggregate_marking = Wire::dec(r)?;
    self.dimensions = Wire::dec(r)?;
    self.orientation = Wire::dec(r)?;
    self.center_of_mass = Wire::dec(r)?;
    self.velocity = Wire::dec(r)?;
    self.number_of_dis_aggregates = Wire::dec(r)?;
    self.number_of_dis_entities = Wire::dec(r)?;
    self.number_of_silent_aggregate_types = Wire::dec(r)?;
    self.number_of_silent_entity_types = Wire::dec(r)?;
    self.aggregate_id_list = { let n = self.number_of_dis_aggregates as u64; r.list(n)? };
    self.entity_id_list = { let n = self.number_of_dis_entities as u64; r.list(n)? };
    self.silent_aggregate_system_list = { let n = self.number_of_silent_aggregate_types as u64; r.list(n)? };
    self.silent_entity_system_list = { let n = self.number_of_silent_entity_types as u64; r.list(n)? };
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.variable_datum_list = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.aggregate_id, &o.aggregate_id) { return Some(format!(".aggregate_id{d}")); }
    if let Some(d) = Wire::diff(&self.force_id, &o.force_id) { return Some(format!(".force_id{d}")); }
    if let Some(d) = Wire::diff(&self.aggregate_state, &o.aggregate_state) { return Some(format!(".aggregate_state{d}")); }
    if let Some(d) = Wire::diff(&self.aggregate_type, &o.aggregate_type) { return Some(format!(".aggregate_type{d}")); }
    if let Some(d) = Wire::diff(&self.formation, &o.formation) { return Some(format!(".formation{d}")); }
    if let Some(d) = Wire::diff(&self.aggregate_marking, &o.aggregate_marking) { return Some(format!(".aggregate_marking{d}")); }
    if let Some(d) = Wire::diff(&self.dimensions, &o.dimensions) { return Some(format!(".dimensions{d}")); }
    if let Some(d) = Wire::diff(&self.orientation, &o.orientation) { return Some(format!(".orientation{d}")); }
    if let Some(d) = Wire::diff(&self.center_of_mass, &o.center_of_mass) { return Some(format!(".center_of_mass{d}")); }
    if let Some(d) = Wire::diff(&self.velocity, &o.velocity) { return Some(format!(".velocity{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_dis_aggregates, &o.number_of_dis_aggregates) { return Some(format!(".number_of_dis_aggregates{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_dis_entities, &o.number_of_dis_entities) { return Some(format!(".number_of_dis_entities{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_silent_aggregate_types, &o.number_of_silent_aggregate_types) { return Some(format!(".number_of_silent_aggregate_types{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_silent_entity_types, &o.number_of_silent_entity_types) { return Some(format!(".number_of_silent_entity_types{d}")); }
    if let Some(d) = Wire::diff(&self.aggregate_id_list, &o.aggregate_id_list) { return Some(format!(".aggregate_id_list{d}")); }
    if let Some(d) = Wire::diff(&self.entity_id_list, &o.entity_id_list) { return Some(format!(".entity_id_list{d}")); }
    if let Some(d) = Wire::diff(&self.silent_aggregate_system_list, &o.silent_aggregate_system_list) { return Some(format!(".silent_aggregate_system_list{d}")); }
    if let Some(d) = Wire::diff(&self.silent_entity_system_list, &o.silent_entity_system_list) { return Some(format!(".silent_entity_system_list{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_list, &o.variable_datum_list) { return Some(format!(".variable_datum_list{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.aggregate_id = Wire::dup(&self.aggregate_id);
    o.force_id = Wire::dup(&self.force_id);
    o.aggregate_state = Wire::dup(&self.aggregate_state);
    o.aggregate_type = Wire::dup(&self.aggregate_type);
    o.formation = Wire::dup(&self.formation);
    o.aggregate_marking = Wire::dup(&self.aggregate_marking);
    o.dimensions = Wire::dup(&self.dimensions);
    o.orientation = Wire::dup(&self.orientation);
    o.center_of_mass = Wire::dup(&self.center_of_mass);
    o.velocity = Wire::dup(&self.velocity);
    o.number_of_dis_aggregates = Wire::dup(&self.number_of_dis_aggregates);
    o.number_of_dis_entities = Wire::dup(&self.number_of_dis_entities);
    o.number_of_silent_aggregate_types = Wire::dup(&self.number_of_silent_aggregate_types);
    o.number_of_silent_entity_types = Wire::dup(&self.number_of_silent_entity_types);
    o.aggregate_id_list = Wire::dup(&self.aggregate_id_list);
    o.entity_id_list = Wire::dup(&self.entity_id_list);
    o.silent_aggregate_system_list = Wire::dup(&self.silent_aggregate_system_list);
    o.silent_entity_system_list = Wire::dup(&self.silent_entity_system_list);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.variable_datum_list = Wire::dup(&self.variable_datum_list);
  }
}
impl PduSpec for IsGroupOfPdu { const NAME: &'static str = "IsGroupOfPdu"; const TYPE: (PduType, u8) = (PduType::IsGroupOf, 34); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::EntityManagement, 7);
  const FIELDS: &'static [&'static str] = &["group_entity_id", "grouped_entity_category", "number_of_grouped_entities", "latitude", "longitude", "grouped_entity_descriptions"];
  const LISTS: &'static [usize] = &[5];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.group_entity_id = Wire::gen(g); }
    1 => { self.grouped_entity_category = Wire::gen(g); }
    2 => { self.number_of_grouped_entities = Wire::gen(g); }
    3 => { self.latitude = Wire::gen(g); }
    4 => { self.longitude = Wire::gen(g); }
    5 => { self.grouped_entity_descriptions = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_grouped_entities = self.grouped_entity_descriptions.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.grouped_entity_descriptions.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.group_entity_id, w);
    Wire::enc(&self.grouped_entity_category, w);
    w.mark_count();
    Wire::enc(&self.number_of_grouped_entities, w);
    w.pad(4);
    Wire::enc(&self.latitude, w);
    Wire::enc(&self.longitude, w);
    w.enter_list(); for x in &self.grouped_entity_descriptions { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.group_entity_id = Wire::dec(r)?;
    self.grouped_entity_category = Wire::dec(r)?;
    self.number_of_grouped_entities = Wire::dec(r)?;
    r.skip(4)?;
    self.latitude = Wire::dec(r)?;
    self.longitude = Wire::dec(r)?;
    self.grouped_entity_descriptions = { let n = self.number_of_grouped_entities as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.group_entity_id, &o.group_entity_id) { return Some(format!(".group_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.grouped_entity_category, &o.grouped_entity_category) { return Some(format!(".grouped_entity_category{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_grouped_entities, &o.number_of_grouped_entities) { return Some(format!(".number_of_grouped_entities{d}")); }
    if let Some(d) = Wire::diff(&self.latitude, &o.latitude) { return Some(format!(".latitude{d}")); }
    if let Some(d) = Wire::diff(&self.longitude, &o.longitude) { return Some(format!(".longitude{d}")); }
    if let Some(d) = Wire::diff(&self.grouped_entity_descriptions, &o.grouped_entity_descriptions) { return Some(format!(".grouped_entity_descriptions{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.group_entity_id = Wire::dup(&self.group_entity_id);
    o.grouped_entity_category = Wire::dup(&self.grouped_entity_category);
    o.number_of_grouped_entities = Wire::dup(&self.number_of_grouped_entities);
    o.latitude = Wire::dup(&self.latitude);
    o.longitude = Wire::dup(&self.longitude);
    o.grouped_entity_descriptions = Wire::dup(&self.grouped_entity_descriptions);
  }
}
impl PduSpec for TransferOwnershipPdu { const NAME: &'static str = "TransferOwnershipPdu"; const TYPE: (PduType, u8) = (PduType::TransferOwnership, 35); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::EntityManagement, 7);
  const FIELDS: &'static [&'static str] = &["originating_id", "receiving_id", "request_id", "required_reliability_service", "transfer_type", "transfer_entity_id", "record_information"];
  const LISTS: &'static [usize] = &[6];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_id = Wire::gen(g); }
    1 => { self.receiving_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.required_reliability_service = Wire::gen(g); }
    4 => { self.transfer_type = Wire::gen(g); }
    5 => { self.transfer_entity_id = Wire::gen(g); }
    6 => { self.record_information = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
    self.record_information.record_sets.truncate(keep); for e in &mut self.record_information.record_sets { e.record_values.truncate(keep); }
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_id, w);
    Wire::enc(&self.receiving_id, w);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.required_reliability_service, w);
    Wire::enc(&self.transfer_type, w);
    Wire::enc(&self.transfer_entity_id, w);
    Wire::enc(&self.record_information, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_id = Wire::dec(r)?;
    self.receiving_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    self.transfer_type = Wire::dec(r)?;
    self.transfer_entity_id = Wire::dec(r)?;
    self.record_information = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_id, &o.originating_id) { return Some(format!(".originating_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_id, &o.receiving_id) { return Some(format!(".receiving_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.transfer_type, &o.transfer_type) { return Some(format!(".transfer_type{d}")); }
    if let Some(d) = Wire::diff(&self.transfer_entity_id, &o.transfer_entity_id) { return Some(format!(".transfer_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.record_information, &o.record_information) { return Some(format!(".record_information{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_id = Wire::dup(&self.originating_id);
    o.receiving_id = Wire::dup(&self.receiving_id);
    o.request_id = Wire::dup(&self.request_id);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.transfer_type = Wire::dup(&self.transfer_type);
    o.transfer_entity_id = Wire::dup(&self.transfer_entity_id);
    o.record_information = Wire::dup(&self.record_information);
  }
}
impl PduSpec for IsPartOfPdu { const NAME: &'static str = "IsPartOfPdu"; const TYPE: (PduType, u8) = (PduType::IsPartOf, 36); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::EntityManagement, 7);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "relationship", "part_location", "named_location_id", "part_entity_type"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(40);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.relationship = Wire::gen(g); }
    3 => { self.part_location = Wire::gen(g); }
    4 => { self.named_location_id = Wire::gen(g); }
    5 => { self.part_entity_type = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.relationship, w);
    Wire::enc(&self.part_location, w);
    Wire::enc(&self.named_location_id, w);
    Wire::enc(&self.part_entity_type, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.relationship = Wire::dec(r)?;
    self.part_location = Wire::dec(r)?;
    self.named_location_id = Wire::dec(r)?;
    self.part_entity_type = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.relationship, &o.relationship) { return Some(format!(".relationship{d}")); }
    if let Some(d) = Wire::diff(&self.part_location, &o.part_location) { return Some(format!(".part_location{d}")); }
    if let Some(d) = Wire::diff(&self.named_location_id, &o.named_location_id) { return Some(format!(".named_location_id{d}")); }
    if let Some(d) = Wire::diff(&self.part_entity_type, &o.part_entity_type) { return Some(format!(".part_entity_type{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.relationship = Wire::dup(&self.relationship);
    o.part_location = Wire::dup(&self.part_location);
    o.named_location_id = Wire::dup(&self.named_location_id);
    o.part_entity_type = Wire::dup(&self.part_entity_type);
  }
}
impl PduSpec for MinefieldStatePdu { const NAME: &'static str = "MinefieldStatePdu"; const TYPE: (PduType, u8) = (PduType::MinefieldState, 37); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Minefield, 8);
  const FIELDS: &'static [&'static str] = &["minefield_id", "minefield_sequence", "force_id", "number_of_perimeter_points", "minefield_type", "number_of_mine_types", "minefield_location", "minefield_orientation", "appearance", "protocol_mode", "perimeter_points", "mine_type"];
  const LISTS: &'static [usize] = &[10, 11];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.minefield_id = Wire::gen(g); }
    1 => { self.minefield_sequence = Wire::gen(g); }
    2 => { self.force_id = Wire::gen(g); }
    3 => { self.number_of_perimeter_points = Wire::gen(g); }
    4 => { self.minefield_type = Wire::gen(g); }
    5 => { self.number_of_mine_types = Wire::gen(g); }
    6 => { self.minefield_location = Wire::gen(g); }
    7 => { self.minefield_orientation = Wire::gen(g); }
    8 => { self.appearance = Wire::gen(g); }
    9 => { self.protocol_mode = Wire::gen(g); }
    10 => { self.perimeter_points = g.list(255); }
    11 => { self.mine_type = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_perimeter_points = self.perimeter_points.len() as u8;
    self.number_of_mine_types = self.mine_type.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.perimeter_points.truncate(keep);
    self.mine_type.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.minefield_id, w);
    Wire::enc(&self.minefield_sequence, w);
    Wire::enc(&self.force_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_perimeter_points, w);
    Wire::enc(&self.minefield_type, w);
    w.mark_count();
    Wire::enc(&self.number_of_mine_types, w);
    Wire::enc(&self.minefield_location, w);
    Wire::enc(&self.minefield_orientation, w);
    Wire::enc(&self.appearance, w);
    Wire::enc(&self.protocol_mode, w);
    w.enter_list(); for x in &self.perimeter_points { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.mine_type { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.minefield_id = Wire::dec(r)?;
    self.minefield_sequence = Wire::dec(r)?;
    self.force_id = Wire::dec(r)?;
    self.number_of_perimeter_points = Wire::dec(r)?;
    self.minefield_type = Wire::dec(r)?;
    self.number_of_mine_types = Wire::dec(r)?;
    self.minefield_location = Wire::dec(r)?;
    self.minefield_orientation = Wire::dec(r)?;
    self.appearance = Wire::dec(r)?;
    self.protocol_mode = Wire::dec(r)?;
    self.perimeter_points = { let n = self.number_of_perimeter_points as u64; r.list(n)? };
    self.mine_type = { let n = self.number_of_mine_types as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.minefield_id, &o.minefield_id) { return Some(format!(".minefield_id{d}")); }
    if let Some(d) = Wire::diff(&self.minefield_sequence, &o.minefield_sequence) { return Some(format!(".minefield_sequence{d}")); }
    if let Some(d) = Wire::diff(&self.force_id, &o.force_id) { return Some(format!(".force_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_perimeter_points, &o.number_of_perimeter_points) { return Some(format!(".number_of_perimeter_points{d}")); }
    if let Some(d) = Wire::diff(&self.minefield_type, &o.minefield_type) { return Some(format!(".minefield_type{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_mine_types, &o.number_of_mine_types) { return Some(format!(".number_of_mine_types{d}")); }
    if let Some(d) = Wire::diff(&self.minefield_location, &o.minefield_location) { return Some(format!(".minefield_location{d}")); }
    if let Some(d) = Wire::diff(&self.minefield_orientation, &o.minefield_orientation) { return Some(format!(".minefield_orientation{d}")); }
    if let Some(d) = Wire::diff(&self.appearance, &o.appearance) { return Some(format!(".appearance{d}")); }
    if let Some(d) = Wire::diff(&self.protocol_mode, &o.protocol_mode) { return Some(format!(".protocol_mode{d}")); }
    if let Some(d) = Wire::diff(&self.perimeter_points, &o.perimeter_points) { return Some(format!(".perimeter_points{d}")); }
    if let Some(d) = Wire::diff(&self.mine_type, &o.mine_type) { return Some(format!(".mine_type{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.minefield_id = Wire::dup(&self.minefield_id);
    o.minefield_sequence = Wire::dup(&self.minefield_sequence);
    o.force_id = Wire::dup(&self.force_id);
    o.number_of_perimeter_points = Wire::dup(&self.number_of_perimeter_points);
    o.minefield_type = Wire::dup(&self.minefield_type);
    o.number_of_mine_types = Wire::dup(&self.number_of_mine_types);
    o.minefield_location = Wire::dup(&self.minefield_location);
    o.minefield_orientation = Wire::dup(&self.minefield_orientation);
    o.appearance = Wire::dup(&self.appearance);
    o.protocol_mode = Wire::dup(&self.protocol_mode);
    o.perimeter_points = Wire::dup(&self.perimeter_points);
    o.mine_type = Wire::dup(&self.mine_type);
  }
}
impl PduSpec for MinefieldQueryPdu { const NAME: &'static str = "MinefieldQueryPdu"; const TYPE: (PduType, u8) = (PduType::MinefieldQuery, 38); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Minefield, 8);
  const FIELDS: &'static [&'static str] = &["minefield_id", "requesting_entity_id", "request_id", "number_of_perimeter_points", "number_of_sensor_types", "data_filter", "requested_mine_type", "requested_perimeter_points", "sensor_types"];
  const LISTS: &'static [usize] = &[7, 8];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.minefield_id = Wire::gen(g); }
    1 => { self.requesting_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.number_of_perimeter_points = Wire::gen(g); }
    4 => { self.number_of_sensor_types = Wire::gen(g); }
    5 => { self.data_filter = Wire::gen(g); }
    6 => { self.requested_mine_type = Wire::gen(g); }
    7 => { self.requested_perimeter_points = g.list(255); }
    8 => { self.sensor_types = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_perimeter_points = self.requested_perimeter_points.len() as u8;
    self.number_of_sensor_types = self.sensor_types.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.requested_perimeter_points.truncate(keep);
    self.sensor_types.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.minefield_id, w);
    Wire::enc(&self.requesting_entity_id, w);
    Wire::enc(&self.request_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_perimeter_points, w);
    w.pad(1);
    w.mark_count();
    Wire::enc(&self.number_of_sensor_types, w);
    Wire::enc(&self.data_filter, w);
    Wire::enc(&self.requested_mine_type, w);
    w.enter_list(); for x in &self.requested_perimeter_points { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.sensor_types { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.minefield_id = Wire::dec(r)?;
    self.requesting_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.number_of_perimeter_points = Wire::dec(r)?;
    r.skip(1)?;
    self.number_of_sensor_types = Wire::dec(r)?;
    self.data_filter = Wire::dec(r)?;
    self.requested_mine_type = Wire::dec(r)?;
    self.requested_perimeter_points = { let n = self.number_of_perimeter_points as u64; r.list(n)? };
    self.sensor_types = { let n = self.number_of_sensor_types as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.minefield_id, &o.minefield_id) { return Some(format!(".minefield_id{d}")); }
    if let Some(d) = Wire::diff(&self.requesting_entity_id, &o.requesting_entity_id) { return Some(format!(".requesting_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_perimeter_points, &o.number_of_perimeter_points) { return Some(format!(".number_of_perimeter_points{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_sensor_types, &o.number_of_sensor_types) { return Some(format!(".number_of_sensor_types{d}")); }
    if let Some(d) = Wire::diff(&self.data_filter, &o.data_filter) { return Some(format!(".data_filter{d}")); }
    if let Some(d) = Wire::diff(&self.requested_mine_type, &o.requested_mine_type) { return Some(format!(".requested_mine_type{d}")); }
    if let Some(d) = Wire::diff(&self.requested_perimeter_points, &o.requested_perimeter_points) { return Some(format!(".requested_perimeter_points{d}")); }
    if let Some(d) = Wire::diff(&self.sensor_types, &o.sensor_types) { return Some(format!(".sensor_types{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.minefield_id = Wire::dup(&self.minefield_id);
    o.requesting_entity_id = Wire::dup(&self.requesting_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.number_of_perimeter_points = Wire::dup(&self.number_of_perimeter_points);
    o.number_of_sensor_types = Wire::dup(&self.number_of_sensor_types);
    o.data_filter = Wire::dup(&self.data_filter);
    o.requested_mine_type = Wire::dup(&self.requested_mine_type);
    o.requested_perimeter_points = Wire::dup(&self.requested_perimeter_points);
    o.sensor_types = Wire::dup(&self.sensor_types);
  }
}
impl PduSpec for MinefieldDataPdu { const NAME: &'static str = "MinefieldDataPdu"; const TYPE: (PduType, u8) = (PduType::MinefieldData, 39); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Minefield, 8);
  const FIELDS: &'static [&'static str] = &["minefield_id", "requesting_entity_id", "minefield_sequence_number", "request_id", "pdu_sequence_number", "number_of_pdus", "number_of_mines_in_this_pdu", "number_of_sensor_types", "data_filter", "mine_type", "sensor_types", "mine_location", "ground_burial_depth_offset", "water_burial_depth_offset", "snow_burial_depth_offset", "mine_orientation", "thermal_contrast", "reflectance", "mine_emplacement_time", "mine_entity_id", "fusing", "scalar_detection_coefficient", "paint_scheme", "number_of_trip_wires", "number_of_vertices", "vertices"];
  const LISTS: &'static [usize] = &[10, 11];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.minefield_id = Wire::gen(g); }
    1 => { self.requesting_entity_id = Wire::gen(g); }
    2 => { self.minefield_sequence_number = Wire::gen(g); }
    3 => { self.request_id = Wire::gen(g); }
    4 => { self.pdu_sequence_number = Wire::gen(g); }
    5 => { self.number_of_pdus = Wire::gen(g); }
    6 => { self.number_of_mines_in_this_pdu = Wire::gen(g); }
    7 => { self.number_of_sensor_types = Wire::gen(g); }
    8 => { self.data_filter = Wire::gen(g); }
    9 => { self.mine_type = Wire::gen(g); }
    10 => { self.sensor_types = g.list(255); }
    11 => { self.mine_location = g.list(255); }
    12 => { self.ground_burial_depth_offset = g.optlist(); }
    13 => { self.water_burial_depth_offset = g.optlist(); }
    14 => { self.snow_burial_depth_offset = g.optlist(); }
    15 => { self.mine_orientation = g.optlist(); }
    16 => { self.thermal_contrast = g.optlist(); }
    17 => { self.reflectance = g.optlist(); }
    18 => { self.mine_emplacement_time = g.optlist(); }
    19 => { self.mine_entity_id = g.optlist(); }
    20 => { self.fusing = g.optlist(); }
    21 => { self.scalar_detection_coefficient = g.optlist(); }
    22 => { self.paint_scheme = g.optlist(); }
    23 => { self.number_of_trip_wires = g.optlist(); }
    24 => { self.number_of_vertices = g.optlist(); }
    25 => { self.vertices = g.optlist(); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_sensor_types = self.sensor_types.len() as u8;
    self.number_of_mines_in_this_pdu = self.mine_location.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.sensor_types.truncate(keep);
    self.mine_location.truncate(keep);
    self.ground_burial_depth_offset.truncate(keep);
    self.water_burial_depth_offset.truncate(keep);
    self.snow_burial_depth_offset.truncate(keep);
    self.mine_orientation.truncate(keep);
    self.thermal_contrast.truncate(keep);
    self.reflectance.truncate(keep);
    self.mine_emplacement_time.truncate(keep);
    self.mine_entity_id.truncate(keep);
    self.fusing.truncate(keep);
    self.scalar_detection_coefficient.truncate(keep);
    self.paint_scheme.truncate(keep);
    self.number_of_trip_wires.truncate(keep);
    self.number_of_vertices.truncate(keep);
    self.vertices.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.minefield_id, w);
    Wire::enc(&self.requesting_entity_id, w);
    Wire::enc(&self.minefield_sequence_number, w);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.pdu_sequence_number, w);
    Wire::enc(&self.number_of_pdus, w);
    w.mark_count();
    Wire::enc(&self.number_of_mines_in_this_pdu, w);
    w.mark_count();
    Wire::enc(&self.number_of_sensor_types, w);
    w.pad(1);
    Wire::enc(&self.data_filter, w);
    Wire::enc(&self.mine_type, w);
    w.enter_list(); for x in &self.sensor_types { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.mine_location { Wire::enc(x, w); } w.leave_list();
    for x in self.ground_burial_depth_offset.iter().flatten() { Wire::enc(x, w); }
    for x in self.water_burial_depth_offset.iter().flatten() { Wire::enc(x, w); }
    for x in self.snow_burial_depth_offset.iter().flatten() { Wire::enc(x, w); }
    for x in self.mine_orientation.iter().flatten() { Wire::enc(x, w); }
    for x in self.thermal_contrast.iter().flatten() { Wire::enc(x, w); }
    for x in self.reflectance.iter().flatten() { Wire::enc(x, w); }
    for x in self.mine_emplacement_time.iter().flatten() { Wire::enc(x, w); }
    for x in self.mine_entity_id.iter().flatten() { Wire::enc(x, w); }
    for x in self.fusing.iter().flatten() { Wire::enc(x, w); }
    for x in self.scalar_detection_coefficient.iter().flatten() { Wire::enc(x, w); }
    for x in self.paint_scheme.iter().flatten() { Wire::enc(x, w); }
    for x in self.number_of_trip_wires.iter().flatten() { Wire::enc(x, w); }
    for x in self.number_of_vertices.iter().flatten() { Wire::enc(x, w); }
    for x in self.vertices.iter().flatten() { Wire::enc(x, w); }
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.minefield_id = Wire::dec(r)?;
    self.requesting_entity_id = Wire::dec(r)?;
    self.minefield_sequence_number = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.pdu_sequence_number = Wire::dec(r)?;
    self.number_of_pdus = Wire::dec(r)?;
    self.number_of_mines_in_this_pdu = Wire::dec(r)?;
    self.number_of_sensor_types = Wire::dec(r)?;
    r.skip(1)?;
    self.data_filter = Wire::dec(r)?;
    self.mine_type = Wire::dec(r)?;
    self.sensor_types = { let n = self.number_of_sensor_types as u64; r.list(n)? };
    self.mine_location = { let n = self.number_of_mines_in_this_pdu as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.minefield_id, &o.minefield_id) { return Some(format!(".minefield_id{d}")); }
    if let Some(d) = Wire::diff(&self.requesting_entity_id, &o.requesting_entity_id) { return Some(format!(".requesting_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.minefield_sequence_number, &o.minefield_sequence_number) { return Some(format!(".minefield_sequence_number{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.pdu_sequence_number, &o.pdu_sequence_number) { return Some(format!(".pdu_sequence_number{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_pdus, &o.number_of_pdus) { return Some(format!(".number_of_pdus{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_mines_in_this_pdu, &o.number_of_mines_in_this_pdu) { return Some(format!(".number_of_mines_in_this_pdu{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_sensor_types, &o.number_of_sensor_types) { return Some(format!(".number_of_sensor_types{d}")); }
    if let Some(d) = Wire::diff(&self.data_filter, &o.data_filter) { return Some(format!(".data_filter{d}")); }
    if let Some(d) = Wire::diff(&self.mine_type, &o.mine_type) { return Some(format!(".mine_type{d}")); }
    if let Some(d) = Wire::diff(&self.sensor_types, &o.sensor_types) { return Some(format!(".sensor_types{d}")); }
    if let Some(d) = Wire::diff(&self.mine_location, &o.mine_location) { return Some(format!(".mine_location{d}")); }
    if let Some(d) = diff_optlist(&self.ground_burial_depth_offset, &o.ground_burial_depth_offset) { return Some(format!(".ground_burial_depth_offset{d}")); }
    if let Some(d) = diff_optlist(&self.water_burial_depth_offset, &o.water_burial_depth_offset) { return Some(format!(".water_burial_depth_offset{d}")); }
    if let Some(d) = diff_optlist(&self.snow_burial_depth_offset, &o.snow_burial_depth_offset) { return Some(format!(".snow_burial_depth_offset{d}")); }
    if let Some(d) = diff_optlist(&self.mine_orientation, &o.mine_orientation) { return Some(format!(".mine_orientation{d}")); }
    if let Some(d) = diff_optlist(&self.thermal_contrast, &o.thermal_contrast) { return Some(format!(".thermal_contrast{d}")); }
    if let Some(d) = diff_optlist(&self.reflectance, &o.reflectance) { return Some(format!(".reflectance{d}")); }
    if let Some(d) = diff_optlist(&self.mine_emplacement_time, &o.mine_emplacement_time) { return Some(format!(".mine_emplacement_time{d}")); }
    if let Some(d) = diff_optlist(&self.mine_entity_id, &o.mine_entity_id) { return Some(format!(".mine_entity_id{d}")); }
    if let Some(d) = diff_optlist(&self.fusing, &o.fusing) { return Some(format!(".fusing{d}")); }
    if let Some(d) = diff_optlist(&self.scalar_detection_coefficient, &o.scalar_detection_coefficient) { return Some(format!(".scalar_detection_coefficient{d}")); }
    if let Some(d) = diff_optlist(&self.paint_scheme, &o.paint_scheme) { return Some(format!(".paint_scheme{d}")); }
    if let Some(d) = diff_optlist(&self.number_of_trip_wires, &o.number_of_trip_wires) { return Some(format!(".number_of_trip_wires{d}")); }
    if let Some(d) = diff_optlist(&self.number_of_vertices, &o.number_of_vertices) { return Some(format!(".number_of_vertices{d}")); }
    if let Some(d) = diff_optlist(&self.vertices, &o.vertices) { return Some(format!(".vertices{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.minefield_id = Wire::dup(&self.minefield_id);
    o.requesting_entity_id = Wire::dup(&self.requesting_entity_id);
    o.minefield_sequence_number = Wire::dup(&self.minefield_sequence_number);
    o.request_id = Wire::dup(&self.request_id);
    o.pdu_sequence_number = Wire::dup(&self.pdu_sequence_number);
    o.number_of_pdus = Wire::dup(&self.number_of_pdus);
    o.number_of_mines_in_this_pdu = Wire::dup(&self.number_of_mines_in_this_pdu);
    o.number_of_sensor_types = Wire::dup(&self.number_of_sensor_types);
    o.data_filter = Wire::dup(&self.data_filter);
    o.mine_type = Wire::dup(&self.mine_type);
    o.sensor_types = Wire::dup(&self.sensor_types);
    o.mine_location = Wire::dup(&self.mine_location);
    o.ground_burial_depth_offset = dup_optlist(&self.ground_burial_depth_offset);
    o.water_burial_depth_offset = dup_optlist(&self.water_burial_depth_offset);
    o.snow_burial_depth_offset = dup_optlist(&self.snow_burial_depth_offset);
    o.mine_orientation = dup_optlist(&self.mine_orientation);
    o.thermal_contrast = dup_optlist(&self.thermal_contrast);
    o.reflectance = dup_optlist(&self.reflectance);
    o.mine_emplacement_time = dup_optlist(&self.mine_emplacement_time);
    o.mine_entity_id = dup_optlist(&self.mine_entity_id);
    o.fusing = dup_optlist(&self.fusing);
    o.scalar_detection_coefficient = dup_optlist(&self.scalar_detection_coefficient);
    o.paint_scheme = dup_optlist(&self.paint_scheme);
    o.number_of_trip_wires = dup_optlist(&self.number_of_trip_wires);
    o.number_of_vertices = dup_optlist(&self.number_of_vertices);
    o.vertices = dup_optlist(&self.vertices);
  }
}
impl PduSpec for MinefieldResponseNackPdu { const NAME: &'static str = "MinefieldResponseNackPdu"; const TYPE: (PduType, u8) = (PduType::MinefieldResponseNack, 40); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Minefield, 8);
  const FIELDS: &'static [&'static str] = &["minefield_id", "requesting_entity_id", "request_id", "number_of_missing_pdus", "missing_pdu_sequence_numbers"];
  const LISTS: &'static [usize] = &[4];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.minefield_id = Wire::gen(g); }
    1 => { self.requesting_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.number_of_missing_pdus = Wire::gen(g); }
    4 => { self.missing_pdu_sequence_numbers = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_missing_pdus = self.missing_pdu_sequence_numbers.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.missing_pdu_sequence_numbers.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.minefield_id, w);
    Wire::enc(&self.requesting_entity_id, w);
    Wire::enc(&self.request_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_missing_pdus, w);
    w.enter_list(); for x in &self.missing_pdu_sequence_numbers { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.minefield_id = Wire::dec(r)?;
    self.requesting_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.number_of_missing_pdus = Wire::dec(r)?;
    self.missing_pdu_sequence_numbers = { let n = self.number_of_missing_pdus as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.minefield_id, &o.minefield_id) { return Some(format!(".minefield_id{d}")); }
    if let Some(d) = Wire::diff(&self.requesting_entity_id, &o.requesting_entity_id) { return Some(format!(".requesting_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_missing_pdus, &o.number_of_missing_pdus) { return Some(format!(".number_of_missing_pdus{d}")); }
    if let Some(d) = Wire::diff(&self.missing_pdu_sequence_numbers, &o.missing_pdu_sequence_numbers) { return Some(format!(".missing_pdu_sequence_numbers{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.minefield_id = Wire::dup(&self.minefield_id);
    o.requesting_entity_id = Wire::dup(&self.requesting_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.number_of_missing_pdus = Wire::dup(&self.number_of_missing_pdus);
    o.missing_pdu_sequence_numbers = Wire::dup(&self.missing_pdu_sequence_numbers);
  }
}
impl PduSpec for EnvironmentalProcessPdu { const NAME: &'static str = "EnvironmentalProcessPdu"; const TYPE: (PduType, u8) = (PduType::EnvironmentalProcess, 41); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SyntheticEnvironment, 9);
  const FIELDS: &'static [&'static str] = &["environmental_process_id", "environment_type", "model_type", "environment_status", "number_of_environment_records", "sequence_number", "environment_records"];
  const LISTS: &'static [usize] = &[6];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.environmental_process_id = Wire::gen(g); }
    1 => { self.environment_type = Wire::gen(g); }
    2 => { self.model_type = Wire::gen(g); }
    3 => { self.environment_status = Wire::gen(g); }
    4 => { self.number_of_environment_records = Wire::gen(g); }
    5 => { self.sequence_number = Wire::gen(g); }
    6 => { self.environment_records = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_environment_records = self.environment_records.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.environment_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.environmental_process_id, w);
    Wire::enc(&self.environment_type, w);
    Wire::enc(&self.model_type, w);
    Wire::enc(&self.environment_status, w);
    w.mark_count();
    Wire::enc(&self.number_of_environment_records, w);
    Wire::enc(&self.sequence_number, w);
    w.enter_list(); for x in &self.environment_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.environmental_process_id = Wire::dec(r)?;
    self.environment_type = Wire::dec(r)?;
    self.model_type = Wire::dec(r)?;
    self.environment_status = Wire::dec(r)?;
    self.number_of_environment_records = Wire::dec(r)?;
    self.sequence_number = Wire::dec(r)?;
    self.environment_records = { let n = self.number_of_environment_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.environmental_process_id, &o.environmental_process_id) { return Some(format!(".environmental_process_id{d}")); }
    if let Some(d) = Wire::diff(&self.environment_type, &o.environment_type) { return Some(format!(".environment_type{d}")); }
    if let Some(d) = Wire::diff(&self.model_type, &o.model_type) { return Some(format!(".model_type{d}")); }
    if let Some(d) = Wire::diff(&self.environment_status, &o.environment_status) { return Some(format!(".environment_status{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_environment_records, &o.number_of_environment_records) { return Some(format!(".number_of_environment_records{d}")); }
    if let Some(d) = Wire::diff(&self.sequence_number, &o.sequence_number) { return Some(format!(".sequence_number{d}")); }
    if let Some(d) = Wire::diff(&self.environment_records, &o.environment_records) { return Some(format!(".environment_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.environmental_process_id = Wire::dup(&self.environmental_process_id);
    o.environment_type = Wire::dup(&self.environment_type);
    o.model_type = Wire::dup(&self.model_type);
    o.environment_status = Wire::dup(&self.environment_status);
    o.number_of_environment_records = Wire::dup(&self.number_of_environment_records);
    o.sequence_number = Wire::dup(&self.sequence_number);
    o.environment_records = Wire::dup(&self.environment_records);
  }
}
impl PduSpec for GriddedDataPdu { const NAME: &'static str = "GriddedDataPdu"; const TYPE: (PduType, u8) = (PduType::GriddedData, 42); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SyntheticEnvironment, 9);
  const FIELDS: &'static [&'static str] = &["environmental_simulation_id", "field_number", "pdu_number", "pdu_total", "coordinate_system", "number_of_grid_axes", "constant_grid", "environment_type", "orientation", "sample_time", "total_values", "vector_dimension", "grid_axis_descriptors", "grid_data_list"];
  const LISTS: &'static [usize] = &[12, 13];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.environmental_simulation_id = Wire::gen(g); }
    1 => { self.field_number = Wire::gen(g); }
    2 => { self.pdu_number = Wire::gen(g); }
    3 => { self.pdu_total = Wire::gen(g); }
    4 => { self.coordinate_system = Wire::gen(g); }
    5 => { self.number_of_grid_axes = Wire::gen(g); }
    6 => { self.constant_grid = Wire::gen(g); }
    7 => { self.environment_type = Wire::gen(g); }
    8 => { self.orientation = Wire::gen(g); }
    9 => { self.sample_time = Wire::gen(g); }
    10 => { self.total_values = Wire::gen(g); }
    11 => { self.vector_dimension = Wire::gen(g); }
    12 => { self.grid_axis_descriptors = g.list(255); }
    13 => { self.grid_data_list = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_grid_axes = self.grid_axis_descriptors.len() as u8;
    self.vector_dimension = self.grid_data_list.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.grid_axis_descriptors.truncate(keep);
    self.grid_data_list.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.environmental_simulation_id, w);
    Wire::enc(&self.field_number, w);
    Wire::enc(&self.pdu_number, w);
    Wire::enc(&self.pdu_total, w);
    Wire::enc(&self.coordinate_system, w);
    w.mark_count();
    Wire::enc(&self.number_of_grid_axes, w);
    Wire::enc(&self.constant_grid, w);
    Wire::enc(&self.environment_type, w);
    Wire::enc(&self.orientation, w);
    Wire::enc(&self.sample_time, w);
    Wire::enc(&self.total_values, w);
    w.mark_count();
    Wire::enc(&self.vector_dimension, w);
    w.pad(1);
    w.pad(2);
    w.enter_list(); for x in &self.grid_axis_descriptors { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.grid_data_list { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.environmental_simulation_id = Wire::dec(r)?;
    self.field_number = Wire::dec(r)?;
    self.pdu_number = Wire::dec(r)?;
    self.pdu_total = Wire::dec(r)?;
    self.coordinate_system = Wire::dec(r)?;
    self.number_of_grid_axes = Wire::dec(r)?;
    self.constant_grid = Wire::dec(r)?;
    self.environment_type = Wire::dec(r)?;
    self.orientation = Wire::dec(r)?;
    self.sample_time = Wire::dec(r)?;
    self.total_values = Wire::dec(r)?;
    self.vector_dimension = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.grid_axis_descriptors = { let n = self.number_of_grid_axes as u64; r.list(n)? };
    self.grid_data_list = { let n = self.vector_dimension as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.environmental_simulation_id, &o.environmental_simulation_id) { return Some(format!(".environmental_simulation_id{d}")); }
    if let Some(d) = Wire::diff(&self.field_number, &o.field_number) { return Some(format!(".field_number{d}")); }
    if let Some(d) = Wire::diff(&self.pdu_number, &o.pdu_number) { return Some(format!(".pdu_number{d}")); }
    if let Some(d) = Wire::diff(&self.pdu_total, &o.pdu_total) { return Some(format!(".pdu_total{d}")); }
    if let Some(d) = Wire::diff(&self.coordinate_system, &o.coordinate_system) { return Some(format!(".coordinate_system{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_grid_axes, &o.number_of_grid_axes) { return Some(format!(".number_of_grid_axes{d}")); }
    if let Some(d) = Wire::diff(&self.constant_grid, &o.constant_grid) { return Some(format!(".constant_grid{d}")); }
    if let Some(d) = Wire::diff(&self.environment_type, &o.environment_type) { return Some(format!(".environment_type{d}")); }
    if let Some(d) = Wire::diff(&self.orientation, &o.orientation) { return Some(format!(".orientation{d}")); }
    if let Some(d) = Wire::diff(&self.sample_time, &o.sample_time) { return Some(format!(".sample_time{d}")); }
    if let Some(d) = Wire::diff(&self.total_values, &o.total_values) { return Some(format!(".total_values{d}")); }
    if let Some(d) = Wire::diff(&self.vector_dimension, &o.vector_dimension) { return Some(format!(".vector_dimension{d}")); }
    if let Some(d) = Wire::diff(&self.grid_axis_descriptors, &o.grid_axis_descriptors) { return Some(format!(".grid_axis_descriptors{d}")); }
    if let Some(d) = Wire::diff(&self.grid_data_list, &o.grid_data_list) { return Some(format!(".grid_data_list{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.environmental_simulation_id = Wire::dup(&self.environmental_simulation_id);
    o.field_number = Wire::dup(&self.field_number);
    o.pdu_number = Wire::dup(&self.pdu_number);
    o.pdu_total = Wire::dup(&self.pdu_total);
    o.coordinate_system = Wire::dup(&self.coordinate_system);
    o.number_of_grid_axes = Wire::dup(&self.number_of_grid_axes);
    o.constant_grid = Wire::dup(&self.constant_grid);
    o.environment_type = Wire::dup(&self.environment_type);
    o.orientation = Wire::dup(&self.orientation);
    o.sample_time = Wire::dup(&self.sample_time);
    o.total_values = Wire::dup(&self.total_values);
    o.vector_dimension = Wire::dup(&self.vector_dimension);
    o.grid_axis_descriptors = Wire::dup(&self.grid_axis_descriptors);
    o.grid_data_list = Wire::dup(&self.grid_data_list);
  }
}
impl PduSpec for PointObjectStatePdu { const NAME: &'static str = "PointObjectStatePdu"; const TYPE: (PduType, u8) = (PduType::PointObjectState, 43); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SyntheticEnvironment, 9);
  const FIELDS: &'static [&'static str] = &["object_id", "referenced_object_id", "update_number", "force_id", "modifications", "object_type", "object_location", "object_orientation", "specific_object_appearance", "general_object_appearance", "requester_id", "receiving_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(76);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.object_id = Wire::gen(g); }
    1 => { self.referenced_object_id = Wire::gen(g); }
    2 => { self.update_number = Wire::gen(g); }
    3 => { self.force_id = Wire::gen(g); }
    4 => { self.modifications = Wire::gen(g); }
    5 => { self.object_type = Wire::gen(g); }
    6 => { self.object_location = Wire::gen(g); }
    7 => { self.object_orientation = Wire::gen(g); }
    8 => { self.specific_object_appearance = Wire::gen(g); }
    9 => { self.general_object_appearance = Wire::gen(g); }
    10 => { self.requester_id = Wire::gen(g); }
    11 => { self.receiving_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.object_id, w);
    Wire::enc(&self.referenced_object_id, w);
    Wire::enc(&self.update_number, w);
    Wire::enc(&self.force_id, w);
    Wire::enc(&self.modifications, w);
    Wire::enc(&self.object_type, w);
    Wire::enc(&self.object_location, w);
    Wire::enc(&self.object_orientation, w);
    Wire::enc(&self.specific_object_appearance, w);
    Wire::enc(&self.general_object_appearance, w);
    w.pad(2);
    Wire::enc(&self.requester_id, w);
    Wire::enc(&self.receiving_id, w);
    w.pad(4);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.object_id = Wire::dec(r)?;
    self.referenced_object_id = Wire::dec(r)?;
    self.update_number = Wire::dec(r)?;
    self.force_id = Wire::dec(r)?;
    self.modifications = Wire::dec(r)?;
    self.object_type = Wire::dec(r)?;
    self.object_location = Wire::dec(r)?;
    self.object_orientation = Wire::dec(r)?;
    self.specific_object_appearance = Wire::dec(r)?;
    self.general_object_appearance = Wire::dec(r)?;
    r.skip(2)?;
    self.requester_id = Wire::dec(r)?;
    self.receiving_id = Wire::dec(r)?;
    r.skip(4)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.object_id, &o.object_id) { return Some(format!(".object_id{d}")); }
    if let Some(d) = Wire::diff(&self.referenced_object_id, &o.referenced_object_id) { return Some(format!(".referenced_object_id{d}")); }
    if let Some(d) = Wire::diff(&self.update_number, &o.update_number) { return Some(format!(".update_number{d}")); }
    if let Some(d) = Wire::diff(&self.force_id, &o.force_id) { return Some(format!(".force_id{d}")); }
    if let Some(d) = Wire::diff(&self.modifications, &o.modifications) { return Some(format!(".modifications{d}")); }
    if let Some(d) = Wire::diff(&self.object_type, &o.object_type) { return Some(format!(".object_type{d}")); }
    if let Some(d) = Wire::diff(&self.object_location, &o.object_location) { return Some(format!(".object_location{d}")); }
    if let Some(d) = Wire::diff(&self.object_orientation, &o.object_orientation) { return Some(format!(".object_orientation{d}")); }
    if let Some(d) = Wire::diff(&self.specific_object_appearance, &o.specific_object_appearance) { return Some(format!(".specific_object_appearance{d}")); }
    if let Some(d) = Wire::diff(&self.general_object_appearance, &o.general_object_appearance) { return Some(format!(".general_object_appearance{d}")); }
    if let Some(d) = Wire::diff(&self.requester_id, &o.requester_id) { return Some(format!(".requester_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_id, &o.receiving_id) { return Some(format!(".receiving_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.object_id = Wire::dup(&self.object_id);
    o.referenced_object_id = Wire::dup(&self.referenced_object_id);
    o.update_number = Wire::dup(&self.update_number);
    o.force_id = Wire::dup(&self.force_id);
    o.modifications = Wire::dup(&self.modifications);
    o.object_type = Wire::dup(&self.object_type);
    o.object_location = Wire::dup(&self.object_location);
    o.object_orientation = Wire::dup(&self.object_orientation);
    o.specific_object_appearance = Wire::dup(&self.specific_object_appearance);
    o.general_object_appearance = Wire::dup(&self.general_object_appearance);
    o.requester_id = Wire::dup(&self.requester_id);
    o.receiving_id = Wire::dup(&self.receiving_id);
  }
}
impl PduSpec for LinearObjectStatePdu { const NAME: &'static str = "LinearObjectStatePdu"; const TYPE: (PduType, u8) = (PduType::LinearObjectState, 44); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SyntheticEnvironment, 9);
  const FIELDS: &'static [&'static str] = &["object_id", "referenced_object_id", "update_number", "force_id", "number_of_segments", "requester_id", "receiving_id", "object_type", "linear_segment_parameters"];
  const LISTS: &'static [usize] = &[8];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.object_id = Wire::gen(g); }
    1 => { self.referenced_object_id = Wire::gen(g); }
    2 => { self.update_number = Wire::gen(g); }
    3 => { self.force_id = Wire::gen(g); }
    4 => { self.number_of_segments = Wire::gen(g); }
    5 => { self.requester_id = Wire::gen(g); }
    6 => { self.receiving_id = Wire::gen(g); }
    7 => { self.object_type = Wire::gen(g); }
    8 => { self.linear_segment_parameters = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_segments = self.linear_segment_parameters.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.linear_segment_parameters.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.object_id, w);
    Wire::enc(&self.referenced_object_id, w);
    Wire::enc(&self.update_number, w);
    Wire::enc(&self.force_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_segments, w);
    Wire::enc(&self.requester_id, w);
    Wire::enc(&self.receiving_id, w);
    Wire::enc(&self.object_type, w);
    w.enter_list(); for x in &self.linear_segment_parameters { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.object_id = Wire::dec(r)?;
    self.referenced_object_id = Wire::dec(r)?;
    self.update_number = Wire::dec(r)?;
    self.force_id = Wire::dec(r)?;
    self.number_of_segments = Wire::dec(r)?;
    self.requester_id = Wire::dec(r)?;
    self.receiving_id = Wire::dec(r)?;
    self.object_type = Wire::dec(r)?;
    self.linear_segment_parameters = { let n = self.number_of_segments as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.object_id, &o.object_id) { return Some(format!(".object_id{d}")); }
    if let Some(d) = Wire::diff(&self.referenced_object_id, &o.referenced_object_id) { return Some(format!(".referenced_object_id{d}")); }
    if let Some(d) = Wire::diff(&self.update_number, &o.update_number) { return Some(format!(".update_number{d}")); }
    if let Some(d) = Wire::diff(&self.force_id, &o.force_id) { return Some(format!(".force_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_segments, &o.number_of_segments) { return Some(format!(".number_of_segments{d}")); }
    if let Some(d) = Wire::diff(&self.requester_id, &o.requester_id) { return Some(format!(".requester_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_id, &o.receiving_id) { return Some(format!(".receiving_id{d}")); }
    if let Some(d) = Wire::diff(&self.object_type, &o.object_type) { return Some(format!(".object_type{d}")); }
    if let Some(d) = Wire::diff(&self.linear_segment_parameters, &o.linear_segment_parameters) { return Some(format!(".linear_segment_parameters{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.object_id = Wire::dup(&self.object_id);
    o.referenced_object_id = Wire::dup(&self.referenced_object_id);
    o.update_number = Wire::dup(&self.update_number);
    o.force_id = Wire::dup(&self.force_id);
    o.number_of_segments = Wire::dup(&self.number_of_segments);
    o.requester_id = Wire::dup(&self.requester_id);
    o.receiving_id = Wire::dup(&self.receiving_id);
    o.object_type = Wire::dup(&self.object_type);
    o.linear_segment_parameters = Wire::dup(&self.linear_segment_parameters);
  }
}
impl PduSpec for ArealObjectStatePdu { const NAME: &'static str = "ArealObjectStatePdu"; const TYPE: (PduType, u8) = (PduType::ArealObjectState, 45); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SyntheticEnvironment, 9);
  const FIELDS: &'static [&'static str] = &["object_id", "referenced_object_id", "update_number", "force_id", "modifications", "object_type", "specific_object_appearance", "general_object_appearance", "number_of_points", "requester_id", "receiving_id", "object_location"];
  const LISTS: &'static [usize] = &[11];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.object_id = Wire::gen(g); }
    1 => { self.referenced_object_id = Wire::gen(g); }
    2 => { self.update_number = Wire::gen(g); }
    3 => { self.force_id = Wire::gen(g); }
    4 => { self.modifications = Wire::gen(g); }
    5 => { self.object_type = Wire::gen(g); }
    6 => { self.specific_object_appearance = Wire::gen(g); }
    7 => { self.general_object_appearance = Wire::gen(g); }
    8 => { self.number_of_points = Wire::gen(g); }
    9 => { self.requester_id = Wire::gen(g); }
    10 => { self.receiving_id = Wire::gen(g); }
    11 => { self.object_location = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_points = self.object_location.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.object_location.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.object_id, w);
    Wire::enc(&self.referenced_object_id, w);
    Wire::enc(&self.update_number, w);
    Wire::enc(&self.force_id, w);
    Wire::enc(&self.modifications, w);
    Wire::enc(&self.object_type, w);
    Wire::enc(&self.specific_object_appearance, w);
    Wire::enc(&self.general_object_appearance, w);
    w.mark_count();
    Wire::enc(&self.number_of_points, w);
    Wire::enc(&self.requester_id, w);
    Wire::enc(&self.receiving_id, w);
    w.enter_list(); for x in &self.object_location { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.object_id = Wire::dec(r)?;
    self.referenced_object_id = Wire::dec(r)?;
    self.update_number = Wire::dec(r)?;
    self.force_id = Wire::dec(r)?;
    self.modifications = Wire::dec(r)?;
    self.object_type = Wire::dec(r)?;
    self.specific_object_appearance = Wire::dec(r)?;
    self.general_object_appearance = Wire::dec(r)?;
    self.number_of_points = Wire::dec(r)?;
    self.requester_id = Wire::dec(r)?;
    self.receiving_id = Wire::dec(r)?;
    self.object_location = { let n = self.number_of_points as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.object_id, &o.object_id) { return Some(format!(".object_id{d}")); }
    if let Some(d) = Wire::diff(&self.referenced_object_id, &o.referenced_object_id) { return Some(format!(".referenced_object_id{d}")); }
    if let Some(d) = Wire::diff(&self.update_number, &o.update_number) { return Some(format!(".update_number{d}")); }
    if let Some(d) = Wire::diff(&self.force_id, &o.force_id) { return Some(format!(".force_id{d}")); }
    if let Some(d) = Wire::diff(&self.modifications, &o.modifications) { return Some(format!(".modifications{d}")); }
    if let Some(d) = Wire::diff(&self.object_type, &o.object_type) { return Some(format!(".object_type{d}")); }
    if let Some(d) = Wire::diff(&self.specific_object_appearance, &o.specific_object_appearance) { return Some(format!(".specific_object_appearance{d}")); }
    if let Some(d) = Wire::diff(&self.general_object_appearance, &o.general_object_appearance) { return Some(format!(".general_object_appearance{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_points, &o.number_of_points) { return Some(format!(".number_of_points{d}")); }
    if let Some(d) = Wire::diff(&self.requester_id, &o.requester_id) { return Some(format!(".requester_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_id, &o.receiving_id) { return Some(format!(".receiving_id{d}")); }
    if let Some(d) = Wire::diff(&self.object_location, &o.object_location) { return Some(format!(".object_location{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.object_id = Wire::dup(&self.object_id);
    o.referenced_object_id = Wire::dup(&self.referenced_object_id);
    o.update_number = Wire::dup(&self.update_number);
    o.force_id = Wire::dup(&self.force_id);
    o.modifications = Wire::dup(&self.modifications);
    o.object_type = Wire::dup(&self.object_type);
    o.specific_object_appearance = Wire::dup(&self.specific_object_appearance);
    o.general_object_appearance = Wire::dup(&self.general_object_appearance);
    o.number_of_points = Wire::dup(&self.number_of_points);
    o.requester_id = Wire::dup(&self.requester_id);
    o.receiving_id = Wire::dup(&self.receiving_id);
    o.object_location = Wire::dup(&self.object_location);
  }
}
impl PduSpec for CreateEntityReliablePdu { const NAME: &'static str = "CreateEntityReliablePdu"; const TYPE: (PduType, u8) = (PduType::CreateEntityReliable, 51); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "required_reliability_service", "request_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(20);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.required_reliability_service = Wire::gen(g); }
    3 => { self.request_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.required_reliability_service, w);
    w.pad(1);
    w.pad(2);
    Wire::enc(&self.request_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.request_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.request_id = Wire::dup(&self.request_id);
  }
}
impl PduSpec for RemoveEntityReliablePdu { const NAME: &'static str = "RemoveEntityReliablePdu"; const TYPE: (PduType, u8) = (PduType::RemoveEntityReliable, 52); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "required_reliability_service", "request_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(20);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.required_reliability_service = Wire::gen(g); }
    3 => { self.request_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.required_reliability_service, w);
    w.pad(1);
    w.pad(2);
    Wire::enc(&self.request_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.request_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.request_id = Wire::dup(&self.request_id);
  }
}
impl PduSpec for StartResumeReliablePdu { const NAME: &'static str = "StartResumeReliablePdu"; const TYPE: (PduType, u8) = (PduType::StartResumeReliable, 53); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "real_world_time", "simulation_time", "required_reliability_service", "request_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(36);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.real_world_time = Wire::gen(g); }
    3 => { self.simulation_time = Wire::gen(g); }
    4 => { self.required_reliability_service = Wire::gen(g); }
    5 => { self.request_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.real_world_time, w);
    Wire::enc(&self.simulation_time, w);
    Wire::enc(&self.required_reliability_service, w);
    w.pad(1);
    w.pad(2);
    Wire::enc(&self.request_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.real_world_time = Wire::dec(r)?;
    self.simulation_time = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.request_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.real_world_time, &o.real_world_time) { return Some(format!(".real_world_time{d}")); }
    if let Some(d) = Wire::diff(&self.simulation_time, &o.simulation_time) { return Some(format!(".simulation_time{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.real_world_time = Wire::dup(&self.real_world_time);
    o.simulation_time = Wire::dup(&self.simulation_time);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.request_id = Wire::dup(&self.request_id);
  }
}
impl PduSpec for StopFreezeReliablePdu { const NAME: &'static str = "StopFreezeReliablePdu"; const TYPE: (PduType, u8) = (PduType::StopFreezeReliable, 54); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "real_world_time", "reason", "frozen_behavior", "required_reliability_service", "request_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(28);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.real_world_time = Wire::gen(g); }
    3 => { self.reason = Wire::gen(g); }
    4 => { self.frozen_behavior = Wire::gen(g); }
    5 => { self.required_reliability_service = Wire::gen(g); }
    6 => { self.request_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.real_world_time, w);
    Wire::enc(&self.reason, w);
    Wire::enc(&self.frozen_behavior, w);
    Wire::enc(&self.required_reliability_service, w);
    w.pad(1);
    Wire::enc(&self.request_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.real_world_time = Wire::dec(r)?;
    self.reason = Wire::dec(r)?;
    self.frozen_behavior = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    r.skip(1)?;
    self.request_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.real_world_time, &o.real_world_time) { return Some(format!(".real_world_time{d}")); }
    if let Some(d) = Wire::diff(&self.reason, &o.reason) { return Some(format!(".reason{d}")); }
    if let Some(d) = Wire::diff(&self.frozen_behavior, &o.frozen_behavior) { return Some(format!(".frozen_behavior{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.real_world_time = Wire::dup(&self.real_world_time);
    o.reason = Wire::dup(&self.reason);
    o.frozen_behavior = Wire::dup(&self.frozen_behavior);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.request_id = Wire::dup(&self.request_id);
  }
}
impl PduSpec for AcknowledgeReliablePdu { const NAME: &'static str = "AcknowledgeReliablePdu"; const TYPE: (PduType, u8) = (PduType::AcknowledgeReliable, 55); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "acknowledge_flag", "response_flag", "request_id"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(20);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.acknowledge_flag = Wire::gen(g); }
    3 => { self.response_flag = Wire::gen(g); }
    4 => { self.request_id = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.acknowledge_flag, w);
    Wire::enc(&self.response_flag, w);
    Wire::enc(&self.request_id, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.acknowledge_flag = Wire::dec(r)?;
    self.response_flag = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.acknowledge_flag, &o.acknowledge_flag) { return Some(format!(".acknowledge_flag{d}")); }
    if let Some(d) = Wire::diff(&self.response_flag, &o.response_flag) { return Some(format!(".response_flag{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.acknowledge_flag = Wire::dup(&self.acknowledge_flag);
    o.response_flag = Wire::dup(&self.response_flag);
    o.request_id = Wire::dup(&self.request_id);
  }
}
impl PduSpec for ActionRequestReliablePdu { const NAME: &'static str = "ActionRequestReliablePdu"; const TYPE: (PduType, u8) = (PduType::ActionRequestReliable, 56); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "required_reliability_service", "request_id", "action_id", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[7, 8];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.required_reliability_service = Wire::gen(g); }
    3 => { self.request_id = Wire::gen(g); }
    4 => { self.action_id = Wire::gen(g); }
    5 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    6 => { self.number_of_variable_datum_records = Wire::gen(g); }
    7 => { self.fixed_datum_records = g.list(4294967295); }
    8 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.required_reliability_service, w);
    w.pad(1);
    w.pad(2);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.action_id, w);
    w.pad(4);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.request_id = Wire::dec(r)?;
    self.action_id = Wire::dec(r)?;
    r.skip(4)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.action_id, &o.action_id) { return Some(format!(".action_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.request_id = Wire::dup(&self.request_id);
    o.action_id = Wire::dup(&self.action_id);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for ActionResponseReliablePdu { const NAME: &'static str = "ActionResponseReliablePdu"; const TYPE: (PduType, u8) = (PduType::ActionResponseReliable, 57); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id", "request_status", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[6, 7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.request_status = Wire::gen(g); }
    4 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    5 => { self.number_of_variable_datum_records = Wire::gen(g); }
    6 => { self.fixed_datum_records = g.list(4294967295); }
    7 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.request_status, w);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.request_status = Wire::dec(r)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_status, &o.request_status) { return Some(format!(".request_status{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.request_status = Wire::dup(&self.request_status);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for DataQueryReliablePdu { const NAME: &'static str = "DataQueryReliablePdu"; const TYPE: (PduType, u8) = (PduType::DataQueryReliable, 58); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "required_reliability_service", "request_id", "time_interval", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_ids", "variable_datum_ids"];
  const LISTS: &'static [usize] = &[7, 8];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.required_reliability_service = Wire::gen(g); }
    3 => { self.request_id = Wire::gen(g); }
    4 => { self.time_interval = Wire::gen(g); }
    5 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    6 => { self.number_of_variable_datum_records = Wire::gen(g); }
    7 => { self.fixed_datum_ids = g.list(4294967295); }
    8 => { self.variable_datum_ids = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_ids.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_ids.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_ids.truncate(keep);
    self.variable_datum_ids.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.required_reliability_service, w);
    w.pad(1);
    w.pad(2);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.time_interval, w);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_ids { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_ids { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.request_id = Wire::dec(r)?;
    self.time_interval = Wire::dec(r)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_ids = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_ids = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.time_interval, &o.time_interval) { return Some(format!(".time_interval{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_ids, &o.fixed_datum_ids) { return Some(format!(".fixed_datum_ids{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_ids, &o.variable_datum_ids) { return Some(format!(".variable_datum_ids{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.request_id = Wire::dup(&self.request_id);
    o.time_interval = Wire::dup(&self.time_interval);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_ids = Wire::dup(&self.fixed_datum_ids);
    o.variable_datum_ids = Wire::dup(&self.variable_datum_ids);
  }
}
impl PduSpec for SetDataReliablePdu { const NAME: &'static str = "SetDataReliablePdu"; const TYPE: (PduType, u8) = (PduType::SetDataReliable, 59); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "required_reliability_service", "request_id", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[6, 7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.required_reliability_service = Wire::gen(g); }
    3 => { self.request_id = Wire::gen(g); }
    4 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    5 => { self.number_of_variable_datum_records = Wire::gen(g); }
    6 => { self.fixed_datum_records = g.list(4294967295); }
    7 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.required_reliability_service, w);
    w.pad(1);
    w.pad(2);
    Wire::enc(&self.request_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.request_id = Wire::dec(r)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.request_id = Wire::dup(&self.request_id);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for DataReliablePdu { const NAME: &'static str = "DataReliablePdu"; const TYPE: (PduType, u8) = (PduType::DataReliable, 60); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id", "required_reliability_service", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[6, 7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.required_reliability_service = Wire::gen(g); }
    4 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    5 => { self.number_of_variable_datum_records = Wire::gen(g); }
    6 => { self.fixed_datum_records = g.list(4294967295); }
    7 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.required_reliability_service, w);
    w.pad(1);
    w.pad(2);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for EventReportReliablePdu { const NAME: &'static str = "EventReportReliablePdu"; const TYPE: (PduType, u8) = (PduType::EventReportReliable, 61); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "event_type", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[5, 6];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.event_type = Wire::gen(g); }
    3 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    4 => { self.number_of_variable_datum_records = Wire::gen(g); }
    5 => { self.fixed_datum_records = g.list(4294967295); }
    6 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.event_type, w);
    w.pad(4);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.event_type = Wire::dec(r)?;
    r.skip(4)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.event_type, &o.event_type) { return Some(format!(".event_type{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.event_type = Wire::dup(&self.event_type);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for CommentReliablePdu { const NAME: &'static str = "CommentReliablePdu"; const TYPE: (PduType, u8) = (PduType::CommentReliable, 62); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "number_of_fixed_datum_records", "number_of_variable_datum_records", "fixed_datum_records", "variable_datum_records"];
  const LISTS: &'static [usize] = &[4, 5];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.number_of_fixed_datum_records = Wire::gen(g); }
    3 => { self.number_of_variable_datum_records = Wire::gen(g); }
    4 => { self.fixed_datum_records = g.list(4294967295); }
    5 => { self.variable_datum_records = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_fixed_datum_records = self.fixed_datum_records.len() as u32;
    self.number_of_variable_datum_records = self.variable_datum_records.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.fixed_datum_records.truncate(keep);
    self.variable_datum_records.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    w.mark_count();
    Wire::enc(&self.number_of_fixed_datum_records, w);
    w.mark_count();
    Wire::enc(&self.number_of_variable_datum_records, w);
    w.enter_list(); for x in &self.fixed_datum_records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.variable_datum_records { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.number_of_fixed_datum_records = Wire::dec(r)?;
    self.number_of_variable_datum_records = Wire::dec(r)?;
    self.fixed_datum_records = { let n = self.number_of_fixed_datum_records as u64; r.list(n)? };
    self.variable_datum_records = { let n = self.number_of_variable_datum_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_fixed_datum_records, &o.number_of_fixed_datum_records) { return Some(format!(".number_of_fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_variable_datum_records, &o.number_of_variable_datum_records) { return Some(format!(".number_of_variable_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.fixed_datum_records, &o.fixed_datum_records) { return Some(format!(".fixed_datum_records{d}")); }
    if let Some(d) = Wire::diff(&self.variable_datum_records, &o.variable_datum_records) { return Some(format!(".variable_datum_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.number_of_fixed_datum_records = Wire::dup(&self.number_of_fixed_datum_records);
    o.number_of_variable_datum_records = Wire::dup(&self.number_of_variable_datum_records);
    o.fixed_datum_records = Wire::dup(&self.fixed_datum_records);
    o.variable_datum_records = Wire::dup(&self.variable_datum_records);
  }
}
impl PduSpec for RecordQueryReliablePdu { const NAME: &'static str = "RecordQueryReliablePdu"; const TYPE: (PduType, u8) = (PduType::RecordQueryReliable, 65); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id", "required_reliability_service", "event_type", "time", "number_of_records", "record_ids"];
  const LISTS: &'static [usize] = &[7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.required_reliability_service = Wire::gen(g); }
    4 => { self.event_type = Wire::gen(g); }
    5 => { self.time = Wire::gen(g); }
    6 => { self.number_of_records = Wire::gen(g); }
    7 => { self.record_ids = g.list(4294967295); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.number_of_records = self.record_ids.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.record_ids.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.required_reliability_service, w);
    w.pad(1);
    Wire::enc(&self.event_type, w);
    Wire::enc(&self.time, w);
    w.mark_count();
    Wire::enc(&self.number_of_records, w);
    w.enter_list(); for x in &self.record_ids { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    r.skip(1)?;
    self.event_type = Wire::dec(r)?;
    self.time = Wire::dec(r)?;
    self.number_of_records = Wire::dec(r)?;
    self.record_ids = { let n = self.number_of_records as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.event_type, &o.event_type) { return Some(format!(".event_type{d}")); }
    if let Some(d) = Wire::diff(&self.time, &o.time) { return Some(format!(".time{d}")); }
    if let Some(d) = Wire::diff(&self.number_of_records, &o.number_of_records) { return Some(format!(".number_of_records{d}")); }
    if let Some(d) = Wire::diff(&self.record_ids, &o.record_ids) { return Some(format!(".record_ids{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.event_type = Wire::dup(&self.event_type);
    o.time = Wire::dup(&self.time);
    o.number_of_records = Wire::dup(&self.number_of_records);
    o.record_ids = Wire::dup(&self.record_ids);
  }
}
impl PduSpec for SetRecordReliablePdu { const NAME: &'static str = "SetRecordReliablePdu"; const TYPE: (PduType, u8) = (PduType::SetRecordReliable, 64); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::SimulationManagementWithReliability, 10);
  const FIELDS: &'static [&'static str] = &["originating_entity_id", "receiving_entity_id", "request_id", "required_reliability_service", "record_sets"];
  const LISTS: &'static [usize] = &[4];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_entity_id = Wire::gen(g); }
    1 => { self.receiving_entity_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.required_reliability_service = Wire::gen(g); }
    4 => { self.record_sets = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
    self.record_sets.record_sets.truncate(keep); for e in &mut self.record_sets.record_sets { e.record_values.truncate(keep); }
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_entity_id, w);
    Wire::enc(&self.receiving_entity_id, w);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.required_reliability_service, w);
    w.pad(1);
    w.pad(2);
    w.pad(4);
    Wire::enc(&self.record_sets, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_entity_id = Wire::dec(r)?;
    self.receiving_entity_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.required_reliability_service = Wire::dec(r)?;
    r.skip(1)?;
    r.skip(2)?;
    r.skip(4)?;
    self.record_sets = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_entity_id, &o.originating_entity_id) { return Some(format!(".originating_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_entity_id, &o.receiving_entity_id) { return Some(format!(".receiving_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.required_reliability_service, &o.required_reliability_service) { return Some(format!(".required_reliability_service{d}")); }
    if let Some(d) = Wire::diff(&self.record_sets, &o.record_sets) { return Some(format!(".record_sets{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_entity_id = Wire::dup(&self.originating_entity_id);
    o.receiving_entity_id = Wire::dup(&self.receiving_entity_id);
    o.request_id = Wire::dup(&self.request_id);
    o.required_reliability_service = Wire::dup(&self.required_reliability_service);
    o.record_sets = Wire::dup(&self.record_sets);
  }
}
impl PduSpec for InformationOperationsReportPdu { const NAME: &'static str = "InformationOperationsReportPdu"; const TYPE: (PduType, u8) = (PduType::InformationOperationsReport, 71); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::InformationOperations, 13);
  const FIELDS: &'static [&'static str] = &["originating_simulation_id", "io_simulation_source", "io_report_type", "io_attacker_entity_id", "primary_target_entity_id", "io_records"];
  const LISTS: &'static [usize] = &[5];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_simulation_id = Wire::gen(g); }
    1 => { self.io_simulation_source = Wire::gen(g); }
    2 => { self.io_report_type = Wire::gen(g); }
    3 => { self.io_attacker_entity_id = Wire::gen(g); }
    4 => { self.primary_target_entity_id = Wire::gen(g); }
    5 => { self.io_records = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
    self.io_records.standard_variable_records.truncate(keep); for e in &mut self.io_records.standard_variable_records { e.record_specific_fields.truncate(keep); }
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_simulation_id, w);
    Wire::enc(&self.io_simulation_source, w);
    Wire::enc(&self.io_report_type, w);
    w.pad(1);
    Wire::enc(&self.io_attacker_entity_id, w);
    Wire::enc(&self.primary_target_entity_id, w);
    w.pad(2);
    w.pad(2);
    Wire::enc(&self.io_records, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_simulation_id = Wire::dec(r)?;
    self.io_simulation_source = Wire::dec(r)?;
    self.io_report_type = Wire::dec(r)?;
    r.skip(1)?;
    self.io_attacker_entity_id = Wire::dec(r)?;
    self.primary_target_entity_id = Wire::dec(r)?;
    r.skip(2)?;
    r.skip(2)?;
    self.io_records = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_simulation_id, &o.originating_simulation_id) { return Some(format!(".originating_simulation_id{d}")); }
    if let Some(d) = Wire::diff(&self.io_simulation_source, &o.io_simulation_source) { return Some(format!(".io_simulation_source{d}")); }
    if let Some(d) = Wire::diff(&self.io_report_type, &o.io_report_type) { return Some(format!(".io_report_type{d}")); }
    if let Some(d) = Wire::diff(&self.io_attacker_entity_id, &o.io_attacker_entity_id) { return Some(format!(".io_attacker_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.primary_target_entity_id, &o.primary_target_entity_id) { return Some(format!(".primary_target_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.io_records, &o.io_records) { return Some(format!(".io_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_simulation_id = Wire::dup(&self.originating_simulation_id);
    o.io_simulation_source = Wire::dup(&self.io_simulation_source);
    o.io_report_type = Wire::dup(&self.io_report_type);
    o.io_attacker_entity_id = Wire::dup(&self.io_attacker_entity_id);
    o.primary_target_entity_id = Wire::dup(&self.primary_target_entity_id);
    o.io_records = Wire::dup(&self.io_records);
  }
}
impl PduSpec for InformationOperationsActionPdu { const NAME: &'static str = "InformationOperationsActionPdu"; const TYPE: (PduType, u8) = (PduType::InformationOperationsAction, 70); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::InformationOperations, 13);
  const FIELDS: &'static [&'static str] = &["originating_simulation_id", "receiving_simulation_id", "request_id", "io_warfare_type", "io_simulation_source", "io_action_type", "io_action_phase", "io_attacker_entity_id", "io_primary_target_entity_id", "io_records"];
  const LISTS: &'static [usize] = &[9];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.originating_simulation_id = Wire::gen(g); }
    1 => { self.receiving_simulation_id = Wire::gen(g); }
    2 => { self.request_id = Wire::gen(g); }
    3 => { self.io_warfare_type = Wire::gen(g); }
    4 => { self.io_simulation_source = Wire::gen(g); }
    5 => { self.io_action_type = Wire::gen(g); }
    6 => { self.io_action_phase = Wire::gen(g); }
    7 => { self.io_attacker_entity_id = Wire::gen(g); }
    8 => { self.io_primary_target_entity_id = Wire::gen(g); }
    9 => { self.io_records = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
    self.io_records.standard_variable_records.truncate(keep); for e in &mut self.io_records.standard_variable_records { e.record_specific_fields.truncate(keep); }
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.originating_simulation_id, w);
    Wire::enc(&self.receiving_simulation_id, w);
    Wire::enc(&self.request_id, w);
    Wire::enc(&self.io_warfare_type, w);
    Wire::enc(&self.io_simulation_source, w);
    Wire::enc(&self.io_action_type, w);
    Wire::enc(&self.io_action_phase, w);
    w.pad(4);
    Wire::enc(&self.io_attacker_entity_id, w);
    Wire::enc(&self.io_primary_target_entity_id, w);
    w.pad(2);
    Wire::enc(&self.io_records, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.originating_simulation_id = Wire::dec(r)?;
    self.receiving_simulation_id = Wire::dec(r)?;
    self.request_id = Wire::dec(r)?;
    self.io_warfare_type = Wire::dec(r)?;
    self.io_simulation_source = Wire::dec(r)?;
    self.io_action_type = Wire::dec(r)?;
    self.io_action_phase = Wire::dec(r)?;
    r.skip(4)?;
    self.io_attacker_entity_id = Wire::dec(r)?;
    self.io_primary_target_entity_id = Wire::dec(r)?;
    r.skip(2)?;
    self.io_records = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.originating_simulation_id, &o.originating_simulation_id) { return Some(format!(".originating_simulation_id{d}")); }
    if let Some(d) = Wire::diff(&self.receiving_simulation_id, &o.receiving_simulation_id) { return Some(format!(".receiving_simulation_id{d}")); }
    if let Some(d) = Wire::diff(&self.request_id, &o.request_id) { return Some(format!(".request_id{d}")); }
    if let Some(d) = Wire::diff(&self.io_warfare_type, &o.io_warfare_type) { return Some(format!(".io_warfare_type{d}")); }
    if let Some(d) = Wire::diff(&self.io_simulation_source, &o.io_simulation_source) { return Some(format!(".io_simulation_source{d}")); }
    if let Some(d) = Wire::diff(&self.io_action_type, &o.io_action_type) { return Some(format!(".io_action_type{d}")); }
    if let Some(d) = Wire::diff(&self.io_action_phase, &o.io_action_phase) { return Some(format!(".io_action_phase{d}")); }
    if let Some(d) = Wire::diff(&self.io_attacker_entity_id, &o.io_attacker_entity_id) { return Some(format!(".io_attacker_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.io_primary_target_entity_id, &o.io_primary_target_entity_id) { return Some(format!(".io_primary_target_entity_id{d}")); }
    if let Some(d) = Wire::diff(&self.io_records, &o.io_records) { return Some(format!(".io_records{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.originating_simulation_id = Wire::dup(&self.originating_simulation_id);
    o.receiving_simulation_id = Wire::dup(&self.receiving_simulation_id);
    o.request_id = Wire::dup(&self.request_id);
    o.io_warfare_type = Wire::dup(&self.io_warfare_type);
    o.io_simulation_source = Wire::dup(&self.io_simulation_source);
    o.io_action_type = Wire::dup(&self.io_action_type);
    o.io_action_phase = Wire::dup(&self.io_action_phase);
    o.io_attacker_entity_id = Wire::dup(&self.io_attacker_entity_id);
    o.io_primary_target_entity_id = Wire::dup(&self.io_primary_target_entity_id);
    o.io_records = Wire::dup(&self.io_records);
  }
}
pub fn kinds() -> Vec<Box<dyn Kind>> { vec![
  Box::new(KindOf::<EntityStatePdu>::new()),
  Box::new(KindOf::<CollisionPdu>::new()),
  Box::new(KindOf::<CollisionElasticPdu>::new()),
  Box::new(KindOf::<EntityStateUpdatePdu>::new()),
  Box::new(KindOf::<AttributePdu>::new()),
  Box::new(KindOf::<FirePdu>::new()),
  Box::new(KindOf::<DetonationPdu>::new()),
  Box::new(KindOf::<DirectedEnergyFirePdu>::new()),
  Box::new(KindOf::<EntityDamageStatusPdu>::new()),
  Box::new(KindOf::<ServiceRequestPdu>::new()),
  Box::new(KindOf::<ResupplyOfferPdu>::new()),
  Box::new(KindOf::<ResupplyReceivedPdu>::new()),
  Box::new(KindOf::<ResupplyCancelPdu>::new()),
  Box::new(KindOf::<RepairCompletePdu>::new()),
  Box::new(KindOf::<RepairResponsePdu>::new()),
  Box::new(KindOf::<CreateEntityPdu>::new()),
  Box::new(KindOf::<RemoveEntityPdu>::new()),
  Box::new(KindOf::<StartResumePdu>::new()),
  Box::new(KindOf::<StopFreezePdu>::new()),
  Box::new(KindOf::<AcknowledgePdu>::new()),
  Box::new(KindOf::<ActionRequestPdu>::new()),
  Box::new(KindOf::<ActionResponsePdu>::new()),
  Box::new(KindOf::<DataQueryPdu>::new()),
  Box::new(KindOf::<SetDataPdu>::new()),
  Box::new(KindOf::<DataPdu>::new()),
  Box::new(KindOf::<EventReportPdu>::new()),
  Box::new(KindOf::<CommentPdu>::new()),
  Box::new(KindOf::<ElectromagneticEmissionsPdu>::new()),
  Box::new(KindOf::<DesignatorPdu>::new()),
  Box::new(KindOf::<UnderwaterAcousticPdu>::new()),
  Box::new(KindOf::<IFFPdu>::new()),
  Box::new(KindOf::<SupplementalEmissionPdu>::new()),
  Box::new(KindOf::<TransmitterPdu>::new()),
  Box::new(KindOf::<SignalPdu>::new()),
  Box::new(KindOf::<ReceiverPdu>::new()),
  Box::new(KindOf::<IntercomSignalPdu>::new()),
  Box::new(KindOf::<IntercomControlPdu>::new()),
  Box::new(KindOf::<AggregateStatePdu>::new()),
  Box::new(KindOf::<IsGroupOfPdu>::new()),
  Box::new(KindOf::<TransferOwnershipPdu>::new()),
  Box::new(KindOf::<IsPartOfPdu>::new()),
  Box::new(KindOf::<MinefieldStatePdu>::new()),
  Box::new(KindOf::<MinefieldQueryPdu>::new()),
  Box::new(KindOf::<MinefieldDataPdu>::new()),
  Box::new(KindOf::<MinefieldResponseNackPdu>::new()),
  Box::new(KindOf::<EnvironmentalProcessPdu>::new()),
  Box::new(KindOf::<GriddedDataPdu>::new()),
  Box::new(KindOf::<PointObjectStatePdu>::new()),
  Box::new(KindOf::<LinearObjectStatePdu>::new()),
  Box::new(KindOf::<ArealObjectStatePdu>::new()),
  Box::new(KindOf::<CreateEntityReliablePdu>::new()),
  Box::new(KindOf::<RemoveEntityReliablePdu>::new()),
  Box::new(KindOf::<StartResumeReliablePdu>::new()),
  Box::new(KindOf::<StopFreezeReliablePdu>::new()),
  Box::new(KindOf::<AcknowledgeReliablePdu>::new()),
  Box::new(KindOf::<ActionRequestReliablePdu>::new()),
  Box::new(KindOf::<ActionResponseReliablePdu>::new()),
  Box::new(KindOf::<DataQueryReliablePdu>::new()),
  Box::new(KindOf::<SetDataReliablePdu>::new()),
  Box::new(KindOf::<DataReliablePdu>::new()),
  Box::new(KindOf::<EventReportReliablePdu>::new()),
  Box::new(KindOf::<CommentReliablePdu>::new()),
  Box::new(KindOf::<RecordQueryReliablePdu>::new()),
  Box::new(KindOf::<SetRecordReliablePdu>::new()),
  Box::new(KindOf::<InformationOperationsReportPdu>::new()),
  Box::new(KindOf::<InformationOperationsActionPdu>::new()),
]}
