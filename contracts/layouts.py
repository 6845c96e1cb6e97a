"""Wire-layout specifications (the abstract encodings the contracts refer to).

One entry per record / PDU class.  A layout is a sequence of tokens:

  a:u16              integer field (u8 u16 u32 u64 s8 s16 s32 s64) or float (f32 f64)
  a=5:u8             field whose value is fixed by the class
  a:Cls              nested record
  a=None             optional part that is absent (no bytes)
  #lst:u8            element count of list attribute lst
  #lst*8+6>a:u16     8*len(lst)+6; attribute a holds that number after a parse
  #lst<800:u16       element count; the contract covers up to 800 elements
  @size(a):u8        encoded size of the record held by attribute a (0 for None)
  lst[]:u8 lst[]:Cls list elements (as many as its count says)
  lst[]:A|B          list of records, each of class A or B
  lst[/n]:u8         ceil(n/8) octets (n is an attribute: a length in bits)
  lst[15]:u8         fixed-size array
  data[*]:u8         bytes; their number is passed to parse() as bytelength
  %8lst              zero octets up to a multiple of 8 counted from the start of lst
  _:2                reserved zero octets (no attribute)
  <a.10,b?1>         bit field, most significant bits first (? marks a boolean)
  *Base              tokens of another layout
"""
import re

INT = {'u8': (1, False), 'u16': (2, False), 'u32': (4, False), 'u64': (8, False),
       's8': (1, True), 's16': (2, True), 's32': (4, True), 's64': (8, True)}
FLT = {'f32': 4, 'f64': 8}
SIZE = {**{k: v[0] for k, v in INT.items()}, **FLT}


def max_count(t, nocap=False):
    n = (int_range(t.w)[1] - t.add) // t.mul
    return n if t.cap is None or nocap else min(n, t.cap)


def int_range(w):
    n, s = INT[w]
    return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if s else (0, (1 << (8 * n)) - 1)


class Tok:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.attr = None
        self.__dict__.update(kw)

    def __repr__(self):
        return f'{self.kind}({", ".join(f"{k}={v}" for k, v in self.__dict__.items() if k != "kind")})'


class Layout:
    def __init__(self, name, toks, sv=None, parse_len=False, variant='', constraint=None, order=0):
        self.name, self.toks, self.sv, self.parse_len = name, toks, sv, parse_len
        self.variant, self.constraint, self.order = variant, constraint, order

    @property
    def oneway(self):
        """only the writing half is specified (an octetless part cannot be told
        from an absent one by its reader)"""
        return self.variant.startswith('write ')

    @property
    def key(self):
        return self.name + (f'[{self.variant}]' if self.variant else '')

    def attrs(self):
        """declared attributes (the abstract view of the class), in wire order"""
        out = []
        for t in self.toks:
            if t.kind in ('scalar', 'const', 'nested', 'none', 'list', 'fixed', 'bytes'):
                out.append(t.attr)
            elif t.kind == 'bits':
                out += [f[0] for f in t.fields if f[0] != '_']
            elif t.kind == 'count' and t.store:
                out.append(t.store)
        return out


L = {}          # class name -> [Layout per variant]


def parse_tokens(spec):
    toks = []
    for w in spec.split():
        if w[0] == '*':
            toks += L[w[1:]][0].toks
        elif w[0] == '#':
            m = re.fullmatch(r'#([\w.]+)(?:\*(\d+))?(?:\+(\d+))?(?:<(\d+))?(?:>(\w+))?:(\w+)', w)
            toks.append(Tok('count', lst=m[1], mul=int(m[2] or 1), add=int(m[3] or 0), store=m[5], w=m[6],
                            cap=int(m[4]) if m[4] else None))
        elif w[0] == '@':
            m = re.fullmatch(r'@size\(([\w.]+)\):(\w+)', w)
            toks.append(Tok('size', of=m[1], w=m[2]))
        elif w[0] == '%':
            m = re.fullmatch(r'%(\d+)([\w.]+)', w)
            toks.append(Tok('pad', mult=int(m[1]), lst=m[2]))
        elif w[0] == '_':
            toks.append(Tok('reserved', n=int(w[2:])))
        elif w[0] == '<':
            fs = []
            for f in w[1:-1].split(','):
                m = re.fullmatch(r'(\w+)([.?])(\d+)', f)
                fs.append((m[1], int(m[3]), m[2] == '?'))
            bits = sum(f[1] for f in fs)
            assert bits % 8 == 0
            toks.append(Tok('bits', fields=fs, n=bits // 8))
        else:
            m = re.fullmatch(r'([\w.]+)=None', w)
            if m:
                toks.append(Tok('none', attr=m[1]))
                continue
            m = re.fullmatch(r'([\w.]+)(?:=(-?\d+))?(?:\[([^\]]*)\])?:([\w|]+)', w)
            attr, const, idx, typ = m.groups()
            if const is not None:
                toks.append(Tok('const', attr=attr, value=int(const), w=typ))
            elif idx is None:
                toks.append(Tok('scalar', attr=attr, w=typ) if typ in SIZE else Tok('nested', attr=attr, cls=typ))
            elif idx == '*':
                toks.append(Tok('bytes', attr=attr))
            elif idx == '' or idx[0] == '/':
                toks.append(Tok('list', attr=attr, elem=typ if typ in SIZE else typ.split('|'),
                                scalar=typ in SIZE, bitlen=idx[1:] or None))
            else:
                toks.append(Tok('fixed', attr=attr, n=int(idx), w=typ))
    return toks


def rec(name, spec, **kw):
    variants = spec if isinstance(spec, list) else [('', spec, None)]
    L[name] = [Layout(name, parse_tokens(s), variant=v, constraint=c, **kw) for v, s, c in variants]


def split_rec(text, **kw):
    for line in text.strip().splitlines():
        line = line.strip()
        if line and not line.startswith('//'):
            n, s = line.split(' ', 1) if ' ' in line else (line, '')
            rec(n.rstrip(':'), s.strip().lstrip(':'), **kw)


# ------------------------------------------------------------------ records --
split_rec('''
SimulationAddress: site:u16 application:u16
EntityIdentifier: simulationAddress:SimulationAddress entityNumber:u16
EventIdentifier: simulationAddress:SimulationAddress eventNumber:u16
EulerAngles: psi:f32 theta:f32 phi:f32
Vector3Float: x:f32 y:f32 z:f32
WorldCoordinates: x:f64 y:f64 z:f64
SpreadSpectrum: <frequencyHopping?1,pseudoNoise?1,timeHopping?1,padding.13>
NetId: <netNumber.10,frequencyTable.2,mode.2,padding.2>
DEFireFlags: <weaponOn.1,stateUpdateFlag.1,padding.14>
ModulationType: spreadSpectrum:SpreadSpectrum majorModulation:u16 detail:u16 radioSystem:u16
DirectedEnergyTargetEnergyDeposition: targetEntityID:EntityIdentifier padding:u16 peakIrradiance:f32
BeamAntennaPattern: beamDirection:EulerAngles azimuthBeamwidth:f32 elevationBeamwidth:f32 referenceSystem:u8 padding1:u8 padding2:u16 ez:f32 ex:f32 phase:f32 padding3:u32
BasicHaveQuickMP: net_id:NetId mwod_index:u16 reserved16:u16 reserved8_1:u8 reserved8_2:u8 time_of_day:u32 padding:u32
CCTTSincgarsMP: fh_net_id:u16 hop_set_id:u16 lockout_set_id:u16 start_of_message:u8 clear_channel:u8 fh_sync_time_offset:u32 transmission_security_key:u16 padding:u16
GenericRadio:
SimpleIntercomRadio:
''')
rec('UnknownRadio', 'data[*]:u8', parse_len=True)
rec('UnknownAntennaPattern', 'data[*]:u8', parse_len=True)

# Standard Variable records: [recordType u32][recordLength u16] + body
rec('HighFidelityHAVEQUICKRadio', 'padding1:u16 netId:NetId todTransmitIndicator:u8 padding2:u8 todDelta:u32 '
    'wod1:u32 wod2:u32 wod3:u32 wod4:u32 wod5:u32 wod6:u32', sv=3000)
rec('DirectedEnergyPrecisionAimpoint', 'padding:u16 targetSpotLocation:WorldCoordinates '
    'targetSpotEntityLocation:Vector3Float targetSpotVelocity:Vector3Float targetSpotAcceleration:Vector3Float '
    'targetEntityID:EntityIdentifier targetComponentID:u8 beamSpotType:u8 beamSpotCrossSectionSemiMajorAxis:f32 '
    'beamSpotCrossSectionSemiMinorAxis:f32 beamSpotCrossSectionOrientationAngle:f32 peakIrradiance:f32 '
    'padding2:u32', sv=4000)
rec('DirectedEnergyAreaAimpoint', 'padding:u16 #beamAntennaPatterns<819:u16 #directedEnergyTargetEnergyDepositions<2047:u16 '
    'beamAntennaPatterns[]:BeamAntennaPattern '
    'directedEnergyTargetEnergyDepositions[]:DirectedEnergyTargetEnergyDeposition %8size', sv=4001)
rec('DirectedEnergyDamage', 'padding:u16 damageLocation:Vector3Float damageDiameter:f32 temperature:f32 '
    'componentIdentification:u8 componentDamageStatus:u8 componentVisualDamageStatus:u8 '
    'componentVisualSmokeColor:u8 fireEventID:EventIdentifier padding2:u16', sv=4500)

split_rec('''
DataQueryDatumSpecification: #fixedDatumIDs:u32 #variableDatumIDs:u32 fixedDatumIDs[]:u32 variableDatumIDs[]:u32
RadioIdentifier: siteNumber:u16 applicationNumber:u16 referenceNumber:u16 radioNumber:u16
RequestID: requestID:u32
IFFData: recordType:u32 #iffData+6>recordLength:u16 iffData[]:u8
EntityType: entityKind:u8 domain:u8 country:u16 category:u8 subcategory:u8 specific:u8 extra:u8
MunitionDescriptor: munitionType:EntityType warhead:u16 fuse:u16 quantity:u16 rate:u16
MinefieldSensorType: sensorType:u16
GroupID: simulationAddress:SimulationAddress groupNumber:u16
LayerHeader: layerNumber:u8 layerSpecificInformation:u8 length:u16
UnsignedDISInteger: val:u32
DeadReckoningParameters: deadReckoningAlgorithm:u8 parameters[15]:u8 entityLinearAcceleration:Vector3Float entityAngularVelocity:Vector3Float
ProtocolMode: protocolMode:u16
AngleDeception: recordType=3501:u32 recordLength=48:u16 padding:u16 emitterNumber:u8 beamNumber:u8 stateIndicator:u8 padding2:u8 azimuthOffset:f32 azimuthWidth:f32 azimuthPullRate:f32 azimuthPullAcceleration:f32 elevationOffset:f32 elevationWidth:f32 elevationPullRate:f32 elevationPullAcceleration:f32 padding3:u32
EntityAssociation: recordType=4:u8 changeIndicator:u8 associationStatus:u8 associationType:u8 entityID:EntityIdentifier ownStationLocation:u16 physicalConnectionType:u8 groupMemberType:u8 groupNumber:u16
VectoringNozzleSystem: horizontalDeflectionAngle:f32 verticalDeflectionAngle:f32
FalseTargetsAttribute: recordType=3502:u32 recordLength=48:u16 padding:u16 emitterNumber:u8 beamNumber:u8 stateIndicator:u8 padding2:u8 falseTargetCount:u16 walkSpeed:f32 walkAcceleration:f32 maximumWalkDistance:f32 keepTime:f32 echoSpacing:f32
MinefieldIdentifier: simulationAddress:SimulationAddress minefieldNumber:u16
RadioType: entityKind=7:u8 domain:u8 country:u16 category:u8 subcategory:u8 specific:u8 extra:u8
NamedLocationIdentification: stationName:u16 stationNumber:u16
IFFDataSpecification: #iffDataRecords:u16 iffDataRecords[]:IFFData
OwnershipStatus: entityId:EntityIdentifier ownershipStatus:u8 padding:u8
AttachedParts: recordType=1:u8 detachedIndicator:u8 partAttachedTo:u16 parameterType:u32 attachedPartType:EntityType
Attribute: recordType:u32 recordLength:u16 recordSpecificFields:s64
RecordQuerySpecification: #recordIDs:u32 recordIDs[]:u32
ArticulatedParts: recordType=0:u8 changeIndicator:u8 partAttachedTo:u16 parameterType:u32 parameterValue:f32 padding:u32
ObjectType: domain:u8 objectKind:u8 category:u8 subcategory:u8
Association: associationType:u8 padding4:u8 associatedEntityID:EntityIdentifier associatedLocation:WorldCoordinates
RecordSpecificationElement: recordID:u32 recordSetSerialNumber:u32 recordLength:u16 recordCount:u16 recordValues:u16 pad4:u8
AntennaLocation: antennaLocation:WorldCoordinates relativeAntennaLocation:Vector3Float
ObjectIdentifier: simulationAddress:SimulationAddress objectNumber:u16
AggregateIdentifier: simulationAddress:SimulationAddress aggregateID:u16
FixedDatum: fixedDatumID:u32 fixedDatumValue:u32
VariableParameter: recordType:u8 variableParameterFields1:f64 variableParameterFields2:u32 variableParameterFields3:u16 variableParameterFields4:u8
LiveSimulationAddress: liveSiteNumber:u8 liveApplicationNumber:u8
EntityMarking: characterSet:u8 characters[11]:u8
UAFundamentalParameter: activeEmissionParameterIndex:u16 scanPattern:u16 beamCenterAzimuthHorizontal:f32 azimuthalBeamwidthHorizontal:f32 beamCenterDepressionElevation:f32 beamwidthDownElevation:f32
ExplosionDescriptor: explodingObject:EntityType explosiveMaterial:u16 padding:u16 explosiveForce:f32
ClockTime: hour:s32 timePastHour:u32
SecondaryOperationalData: operationalData1:u8 operationalData2:u8 numberOfIFFFundamentalParameterRecords:u16
EnvironmentType: entityKind:u8 domain:u8 entityClass:u16 category:u8 subcategory:u8 specific:u8 extra:u8
TotalRecordSets: totalRecordSets:u16 padding:u16
MineEntityIdentifier: simulationAddress:SimulationAddress mineEntityNumber:u16
Relationship: nature:u16 position:u16
EEFundamentalParameterData: frequency:f32 frequencyRange:f32 effectiveRadiatedPower:f32 pulseRepetitionFrequency:f32 pulseWidth:f32 beamAzimuthCenter:f32 beamAzimuthSweep:f32 beamElevationCenter:f32 beamElevationSweep:f32 beamSweepSync:f32
JammingTechnique: kind:u8 category:u8 subcategory:u8 specific:u8
VariableDatum: variableDatumID:u32 variableDatumLength:u32 variableData[/variableDatumLength]:u8 %8variableData
DatumSpecification: #fixedDatumRecords:u32 #variableDatumRecords:u32 fixedDatumRecords[]:FixedDatum variableDatumRecords[]:VariableDatum
Expendable: expendable:EntityType station:u32 quantity:u16 expendableStatus:u8 padding:u8
CommunicationsNodeID: entityID:EntityIdentifier elementID:u16
IOCommunicationsNode: recordType=5501:u32 recordLength=16:u16 communcationsNodeType:u8 padding:u8 communicationsNodeID:CommunicationsNodeID
LinearSegmentParameter: segmentNumber:u8 segmentModification:u8 generalSegmentAppearance:u16 specificSegmentAppearance:u32 segmentLocation:WorldCoordinates segmentOrientation:EulerAngles segmentLength:f32 segmentWidth:f32 segmentHeight:f32 segmentDepth:f32 padding:u32
TrackJamData: entityID:EntityIdentifier emitterNumber:u8 beamNumber:u8
AggregateType: aggregateKind:u8 domain:u8 country:u16 category:u8 subcategory:u8 specificInfo:u8 extra:u8
SimulationIdentifier: simulationAddress:SimulationAddress referenceNumber:u16
PduHeader: protocolVersion:u8 exerciseID:u8 pduType:u8 protocolFamily:u8 timestamp:u32 pduLength:u16 pduStatus:u8 padding:u8
SimulationManagementPduHeader: pduHeader:PduHeader originatingID:SimulationIdentifier receivingID:SimulationIdentifier
BeamData: beamAzimuthCenter:f32 beamAzimuthSweep:f32 beamElevationCenter:f32 beamElevationSweep:f32 beamSweepSync:f32
EngineFuel: fuelQuantity:u32 fuelMeasurementUnits:u8 fuelType:u8 fuelLocation:u8 padding:u8
IOEffect: recordType=5500:u32 recordLength=16:u16 ioStatus:u8 ioLinkType:u8 ioEffect:u8 ioEffectDutyCycle:u8 ioEffectDuration:u16 ioProcess:u16 padding:u16
GridAxisDescriptorVariable: domainInitialXi:f64 domainFinalXi:f64 domainPointsXi:u16 interleafFactor:u8 axisType:u8 #xiValues:u16 initialIndex:u16 coordinateScaleXi:f64 coordinateOffsetXi:f64 xiValues[]:u16
SupplyQuantity: supplyType:EntityType quantity:f32
SilentEntitySystem: numberOfEntities:u16 #appearanceRecordList:u16 entityType:EntityType appearanceRecordList[]:u32
SilentAggregateSystem: numberOfAggregates:u16 aggregateType:AggregateType
BlankingSector: recordType=3500:u32 recordLength=40:u16 padding:u16 emitterNumber:u8 beamNumber:u8 stateIndicator:u8 padding2:u8 leftAzimuth:f32 rightAzimuth:f32 lowerElevation:f32 upperElevation:f32 residualPower:f32 padding3:s32 padding4:s32
LaunchedMunitionRecord: fireEventID:EventIdentifier padding:u16 firingEntityID:EventIdentifier padding2:u16 targetEntityID:EventIdentifier padding3:u16 targetLocation:WorldCoordinates
IFFFundamentalParameterData: erp:f32 frequency:f32 pgrf:f32 pulseWidth:f32 burstLength:u32 applicableModes:u8 systemSpecificData[3]:u8
FundamentalOperationalData: systemStatus:u8 dataField1:u8 informationLayers:u8 dataField2:u8 parameter1:u16 parameter2:u16 parameter3:u16 parameter4:u16 parameter5:u16 parameter6:u16
IntercomCommunicationsParameters: recordType:u16 recordLength:u16 recordSpecificField:u32
Munition: munitionType:EntityType station:u32 quantity:u16 munitionStatus:u8 padding:u8
StandardVariableSpecification: #standardVariables:u16 standardVariables[]:HighFidelityHAVEQUICKRadio|DirectedEnergyPrecisionAimpoint|DirectedEnergyDamage
Vector2Float: x:f32 y:f32
Environment: environmentType:u32 length:u16 index:u8 padding0:u8
AcousticEmitter: acousticSystemName:u16 acousticFunction:u8 acousticIDNumber:u8
AngularVelocityVector: x:f32 y:f32 z:f32
AggregateMarking: characterSet:u8 characters[31]:u8
DataFilterRecord: bitFlags:u32
IntercomIdentifier: siteNumber:u16 applicationNumber:u16 referenceNumber:u16 intercomNumber:u16
StorageFuel: fuelQuantity:u32 fuelMeasurementUnits:u8 fuelType:u8 fuelLocation:u8 padding:u8
Sensor: sensorTypeSource:u8 sensorOnOffStatus:u8 sensorType:u16 station:u32 quantity:u16 padding:u16
MunitionReload: munitionType:EntityType station:u32 standardQuantity:u16 maximumQuantity:u16 standardQuantityReloadTime:u32 maximumQuantityReloadTime:u32
StorageFuelReload: standardQuantity:u32 maximumQuantity:u32 standardQuantityReloadTime:u32 maximumQuantityReloadTime:u32 fuelMeasurementUnits:u8 fuelType:u8 fuelLocation:u8 padding:u8
ExpendableReload: expendable:EntityType station:u32 standardQuantity:u16 maximumQuantity:u16 standardQuantityReloadTime:u32 maximumQuantityReloadTime:u32
EngineFuelReload: standardQuantity:u32 maximumQuantity:u32 standardQuantityReloadTime:u32 maximumQuantityReloadTime:u32 fuelMeasurmentUnits:u8 fuelLocation:u8 padding:u8
UnattachedIdentifier: simulationAddress:SimulationAddress referenceNumber:u16
EntityTypeVP: recordType=3:u8 changeIndicator:u8 entityType:EntityType padding:u16 padding1:u32
EnvironmentGeneral: environmentType:u32 length:u16 index:u8 padding1:u8 geometry:u8 padding2:u8
GridAxis: domainInitialXi:f64 domainFinalXi:f64 domainPointsXi:u16 interleafFactor:u8 axisType:u8 numberOfPointsOnXiAxis:u16 initialIndex:u16
RecordSpecification: #recordSets:u32 recordSets[]:RecordSpecificationElement
EventIdentifierLiveEntity: siteNumber:u8 applicationNumber:u8 eventNumber:u16
ExpendableDescriptor: expendableType:EntityType padding:s64
PropulsionSystemData: powerSetting:f32 engineRpm:f32
LiveEntityIdentifier: liveSimulationAddress:LiveSimulationAddress entityNumber:u16
SeparationVP: recordType=2:u8 reasonForSeparation:u8 preEntityIndicator:u8 padding1:u8 parentEntityID:EntityIdentifier padding2:u16 stationLocation:NamedLocationIdentification
EmitterSystem: emitterName:u16 emitterFunction:u8 emitterIDNumber:u8
PduStatus: pduStatus:u8
BeamStatus: <_.7,beamState.1>
EmissionSystemBeamRecord: beamDataLength:u8 beamIDNumber:u8 beamParameterIndex:u16 fundamentalParameterData:EEFundamentalParameterData beamFunction:u8 #trackJamRecords:u8 highDensityTrackJam:u8 beamStatus:BeamStatus jammingModeSequence:u32 trackJamRecords[]:TrackJamData
EmissionSystemRecord: systemDataLength:u8 #beamRecords:u8 _:2 emitterSystem:EmitterSystem location:Vector3Float beamRecords[]:EmissionSystemBeamRecord
''')
# SystemIdentifier: see known findings (systemMode occupies two octets)
rec('SystemIdentifier', 'systemType:u16 systemName:u16 systemMode:u16')

# ------------------------------------------------------------------ headers --
FAMILY = {}
PDU_TYPE = {}


def pdu(name, family, ptype, spec):
    FAMILY[name], PDU_TYPE[name] = family, ptype
    hdr = (f'protocolVersion:u8 exerciseID:u8 pduType:u8 protocolFamily:u8 timestamp:u32 '
           f'length:u16 pduStatus:u8 padding:u8 ')
    if family in (5, 10):
        hdr += 'originatingEntityID:EntityIdentifier receivingEntityID:EntityIdentifier '
    if family == 2:
        hdr += 'firingEntityID:EntityIdentifier targetEntityID:EntityIdentifier '
    vs = spec if isinstance(spec, list) else [('', spec, None)]
    rec(name, [(v, hdr + s, c) for v, s, c in vs], order=1)


DATUMS = '#fixedDatumRecords:u32 #variableDatumRecords:u32 fixedDatumRecords[]:FixedDatum ' \
         'variableDatumRecords[]:VariableDatum'
DQ = '#fixedDatumIDs:u32 #variableDatumIDs:u32 fixedDatumIDs[]:u32 variableDatumIDs[]:u32'
REL = 'requiredReliabilityService:u8 pad1:u16 pad2:u8 '
DEREC = 'DirectedEnergyPrecisionAimpoint|DirectedEnergyAreaAimpoint|DirectedEnergyDamage'

PDUS = f'''
EntityStatePdu 1 1 entityID:EntityIdentifier forceId:u8 #variableParameters:u8 entityType:EntityType alternativeEntityType:EntityType entityLinearVelocity:Vector3Float entityLocation:WorldCoordinates entityOrientation:EulerAngles entityAppearance:u32 deadReckoningParameters:DeadReckoningParameters marking:EntityMarking capabilities:u32 variableParameters[]:VariableParameter
FirePdu 2 2 munitionExpendableID:EntityIdentifier eventID:EventIdentifier fireMissionIndex:u32 location:WorldCoordinates descriptor:MunitionDescriptor velocity:Vector3Float range:f32
DetonationPdu 2 3 explodingEntityID:EntityIdentifier eventID:EventIdentifier velocity:Vector3Float location:WorldCoordinates descriptor:MunitionDescriptor locationInEntityCoordinates:Vector3Float detonationResult:u8 #variableParameters:u8 pad:u16 variableParameters[]:VariableParameter
CollisionPdu 1 4 issuingEntityID:EntityIdentifier collidingEntityID:EntityIdentifier eventID:EventIdentifier collisionType:u8 pad:s8 velocity:Vector3Float mass:f32 location:Vector3Float
ServiceRequestPdu 3 5 requestingEntityID:EntityIdentifier servicingEntityID:EntityIdentifier serviceTypeRequested:u8 #supplies:u8 serviceRequestPadding:s16 supplies[]:SupplyQuantity
ResupplyOfferPdu 3 6 receivingEntityID:EntityIdentifier supplyingEntityID:EntityIdentifier #supplies:u8 padding1:s8 padding2:s16 supplies[]:SupplyQuantity
ResupplyReceivedPdu 3 7 receivingEntityID:EntityIdentifier supplyingEntityID:EntityIdentifier #supplies:u8 padding1:s16 padding2:s8 supplies[]:SupplyQuantity
RepairCompletePdu 3 9 receivingEntityID:EntityIdentifier repairingEntityID:EntityIdentifier repair:u16 padding4:s16
RepairResponsePdu 3 10 receivingEntityID:EntityIdentifier repairingEntityID:EntityIdentifier repairResult:u8 padding1:s16 padding2:s8
CreateEntityPdu 5 11 requestID:u32
RemoveEntityPdu 5 12 requestID:u32
StartResumePdu 5 13 realWorldTime:ClockTime simulationTime:ClockTime requestID:u32
StopFreezePdu 5 14 realWorldTime:ClockTime reason:u8 frozenBehavior:u8 padding1:s16 requestID:u32
AcknowledgePdu 5 15 acknowledgeFlag:u16 responseFlag:u16 requestID:u32
ActionRequestPdu 5 16 requestID:u32 actionID:u32 {DATUMS}
ActionResponsePdu 5 17 requestID:u32 requestStatus:u32 {DATUMS}
DataQueryPdu 5 18 requestID:u32 timeInterval:u32 {DQ}
SetDataPdu 5 19 requestID:u32 padding1:u32 {DATUMS}
DataPdu 5 20 requestID:u32 padding1:u32 {DATUMS}
EventReportPdu 5 21 eventType:u32 padding1:u32 {DATUMS}
CommentPdu 5 22 {DATUMS}
ElectromagneticEmissionsPdu 6 23 emittingEntityID:EntityIdentifier eventID:EventIdentifier stateUpdateIndicator:u8 #systems:u8 paddingForEmissionsPdu:u16 systems[]:EmissionSystemRecord
DesignatorPdu 6 24 designatingEntityID:EntityIdentifier codeName:u16 designatedEntityID:EntityIdentifier designatorCode:u16 designatorPower:f32 designatorWavelength:f32 designatorSpotWrtDesignated:Vector3Float designatorSpotLocation:WorldCoordinates deadReckoningAlgorithm:u8 padding1:u16 padding2:s8 entityLinearAcceleration:Vector3Float
SignalPdu 4 26 entityID:EntityIdentifier radioID:u16 encodingScheme:u16 tdlType:u16 sampleRate:u32 #data*8:u16 samples:u16 data[]:u8
ReceiverPdu 4 27 receiverState:u16 padding1:u16 receivedPower:f32 transmitterEntityID:EntityIdentifier transmitterRadioId:u16
SeesPdu 6 30 orginatingEntityID:EntityIdentifier infraredSignatureRepresentationIndex:u16 acousticSignatureRepresentationIndex:u16 radarCrossSectionSignatureRepresentationIndex:u16 #propulsionSystemData:u16 #vectoringSystemData:u16 propulsionSystemData[]:PropulsionSystemData vectoringSystemData[]:VectoringNozzleSystem
IntercomSignalPdu 4 31 entityID:EntityIdentifier communicationsDeviceID:u16 encodingScheme:u16 tdlType:u16 sampleRate:u32 #data*8:u16 samples:u16 data[]:u8
IntercomControlPdu 4 32 controlType:u8 communicationsChannelType:u8 sourceEntityID:EntityIdentifier sourceCommunicationsDeviceID:u16 sourceLineID:u8 transmitPriority:u8 transmitLineState:u8 command:u8 masterEntityID:EntityIdentifier masterCommunicationsDeviceID:u16 #intercomParameters*8:u32 intercomParameters[]:IntercomCommunicationsParameters
AggregateStatePdu 7 33 aggregateID:AggregateIdentifier forceID:u8 aggregateState:u8 aggregateType:AggregateType formation:u32 aggregateMarking:AggregateMarking dimensions:Vector3Float orientation:EulerAngles centerOfMass:Vector3Float velocity:WorldCoordinates #aggregateIDs:u16 #entityIDs:u16 #silentAggregateSystems:u16 #silentEntitySystems:u16 aggregateIDs[]:AggregateIdentifier entityIDs[]:EntityIdentifier silentAggregateSystems[]:SilentAggregateSystem silentEntitySystems[]:SilentEntitySystem #variableDatumRecords:u32 variableDatumRecords[]:VariableDatum
IsPartOfPdu 7 36 orginatingEntityID:EntityIdentifier receivingEntityID:EntityIdentifier relationship:Relationship partLocation:Vector3Float namedLocationID:NamedLocationIdentification partEntityType:EntityType
MinefieldStatePdu 8 37 minefieldID:MinefieldIdentifier minefieldSequence:u16 forceID:u8 #perimeterPoints:u8 minefieldType:EntityType #mineTypes:u16 minefieldLocation:WorldCoordinates minefieldOrientation:EulerAngles appearance:u16 protocolMode:u16 perimeterPoints[]:Vector2Float mineTypes[]:EntityType
MinefieldResponseNackPdu 8 40 minefieldID:EntityIdentifier requestingEntityID:EntityIdentifier requestID:u8 #missingPduSequenceNumbers:u8 missingPduSequenceNumbers[]:u8
PointObjectStatePdu 9 43 objectID:EntityIdentifier referencedObjectID:EntityIdentifier updateNumber:u16 forceID:u8 modifications:u8 objectType:ObjectType objectLocation:WorldCoordinates objectOrientation:EulerAngles objectAppearance:f64 requesterID:SimulationAddress receivingID:SimulationAddress pad2:u32
LinearObjectStatePdu 9 44 objectID:EntityIdentifier referencedObjectID:EntityIdentifier updateNumber:u16 forceID:u8 #linearSegmentParameters:u8 requesterID:SimulationAddress receivingID:SimulationAddress objectType:ObjectType linearSegmentParameters[]:LinearSegmentParameter
ArealObjectStatePdu 9 45 objectID:EntityIdentifier referencedObjectID:EntityIdentifier updateNumber:u16 forceID:u8 modifications:u8 objectType:ObjectType specificObjectAppearance:u32 generalObjectAppearance:u16 #objectLocation:u16 requesterID:SimulationAddress receivingID:SimulationAddress objectLocation[]:WorldCoordinates
CreateEntityReliablePdu 10 51 {REL} requestID:u32
RemoveEntityReliablePdu 10 52 {REL} requestID:u32
StartResumeReliablePdu 10 53 realWorldTime:ClockTime simulationTime:ClockTime {REL} requestID:u32
StopFreezeReliablePdu 10 54 realWorldTime:ClockTime reason:u8 frozenBehavior:u8 requiredReliablityService:u8 pad1:u8 requestID:u32
AcknowledgeReliablePdu 10 55 acknowledgeFlag:u16 responseFlag:u16 requestID:u32
ActionRequestReliablePdu 10 56 {REL} requestID:u32 actionID:u32 pad3:s32 {DATUMS}
ActionResponseReliablePdu 10 57 requestID:u32 responseStatus:u32 {DATUMS}
DataQueryReliablePdu 10 58 {REL} requestID:u32 timeInterval:u32 {DQ}
SetDataReliablePdu 10 59 {REL} requestID:u32 {DATUMS}
DataReliablePdu 10 60 requestID:u32 {REL} {DATUMS}
EventReportReliablePdu 10 61 eventType:u32 pad1:u32 {DATUMS}
CommentReliablePdu 10 62 {DATUMS}
RecordQueryReliablePdu 10 63 requestID:u32 {REL} eventType:u16 time:u32 #recordIDs:u32 recordIDs[]:u32
CollisionElasticPdu 1 66 issuingEntityID:EntityIdentifier collidingEntityID:EntityIdentifier collisionEventID:EventIdentifier pad:s16 contactVelocity:Vector3Float mass:f32 locationOfImpact:Vector3Float collisionIntermediateResultXX:f32 collisionIntermediateResultXY:f32 collisionIntermediateResultXZ:f32 collisionIntermediateResultYY:f32 collisionIntermediateResultYZ:f32 collisionIntermediateResultZZ:f32 unitSurfaceNormal:Vector3Float coefficientOfRestitution:f32
EntityStateUpdatePdu 1 67 entityID:EntityIdentifier padding1:s8 #variableParameters:u8 entityLinearVelocity:Vector3Float entityLocation:WorldCoordinates entityOrientation:EulerAngles entityAppearance:u32 variableParameters[]:VariableParameter
DirectedEnergyFirePdu 2 68 munitionType:EntityType shotStartTime:ClockTime cumulativeShotTime:f32 apertureEmitterLocation:Vector3Float apertureDiameter:f32 wavelength:f32 padding1:u32 pulseRepetitionFrequency:f32 pulseWidth:f32 flags:DEFireFlags pulseShape:u8 padding2:u8 padding3:u32 padding4:u16 #dERecords:u16 dERecords[]:{DEREC}
EntityDamageStatusPdu 2 69 damagedEntityID:EntityIdentifier padding1:u16 padding2:u16 #damageDescriptions:u16 damageDescriptions[]:{DEREC}
AttributePdu 1 72 originatingSimulationAddress:SimulationAddress padding1:s32 padding2:s16 attributeRecordPduType:u8 attributeRecordProtocolVersion:u8 masterAttributeRecordType:u32 actionCode:u8 padding3:s8 numberOfAttributeRecordSets:u16
FastEntityStatePdu 1 1 site:u16 application:u16 entity:u16 forceId:u8 #variableParameters:u8 entityKind:u8 domain:u8 country:u16 category:u8 subcategory:u8 specific:u8 extra:u8 altEntityKind:u8 altDomain:u8 altCountry:u16 altCategory:u8 altSubcategory:u8 altSpecific:u8 altExtra:u8 xVelocity:f32 yVelocity:f32 zVelocity:f32 xLocation:f64 yLocation:f64 zLocation:f64 psi:f32 theta:f32 phi:f32 entityAppearance:u32 deadReckoningAlgorithm:u8 otherParameters[15]:u8 xAcceleration:f32 yAcceleration:f32 zAcceleration:f32 xAngularVelocity:f32 yAngularVelocity:f32 zAngularVelocity:f32 marking[12]:u8 capabilities:u32 variableParameters[]:VariableParameter
'''
for _l in PDUS.strip().splitlines():
    _n, _f, _t, *_r = _l.split(' ', 3)
    pdu(_n, int(_f), int(_t), _r[0] if _r else '')

# UaPdu: the element records of its three lists do not exist in the package
# (known finding); the layout covers the fixed part.
pdu('UaPdu', 6, 29, 'emittingEntityID:EntityIdentifier eventID:EventIdentifier stateChangeIndicator:s8 pad:s8 '
    'passiveParameterIndex:u16 propulsionPlantConfiguration:u8 _:3')

_TX = ('radioReferenceID:EntityIdentifier radioNumber:u16 radioEntityType:EntityType transmitState:u8 inputSource:u8 '
       '#variableTransmitterParameters:u16 antennaLocation:WorldCoordinates relativeAntennaLocation:Vector3Float '
       'antennaPatternType:u16 @size(antennaPattern):u16 frequency:u64 transmitFrequencyBandwidth:f32 power:f32 '
       'modulationType:ModulationType cryptoSystem:u16 cryptoKeyId:u16 @size(modulationParameters):u8 padding2:u16 '
       'padding3:u8 {m} {a} variableTransmitterParameters[]:{v}')
_HF = 'HighFidelityHAVEQUICKRadio'


def _tx(m, a, v=_HF):
    return _TX.format(m='modulationParameters' + m, a='antennaPattern' + a, v=v)


def isin(x, vals):
    """x in vals, for concrete and symbolic x"""
    r = (x == vals[0])
    for v in vals[1:]:
        r = r | (x == v)
    return r


def neg(b):
    return (not b) if isinstance(b, bool) else (b == False)  # noqa: E712


# a constraint takes get(path) -> value and returns a list of conditions
pdu('TransmitterPdu', 4, 25, [
    ('plain', _tx('=None', '=None'), None),
    ('havequick', _tx(':BasicHaveQuickMP', '=None'),
     lambda g: [isin(g('modulationType.radioSystem'), (2, 3, 4))]),
    ('sincgars', _tx(':CCTTSincgarsMP', '=None'), lambda g: [g('modulationType.radioSystem') == 6]),
    ('otherradio', _tx(':UnknownRadio', '=None'),
     lambda g: [neg(isin(g('modulationType.radioSystem'), (2, 3, 4, 6)) & (g('#modulationParameters.data') == 16)),
                g('#modulationParameters.data') >= 1, g('#modulationParameters.data') <= 255]),
    ('beam', _tx('=None', ':BeamAntennaPattern'), lambda g: [g('antennaPatternType') == 1]),
    ('otherantenna', _tx('=None', ':UnknownAntennaPattern'),
     lambda g: [neg((g('antennaPatternType') == 1) & (g('#antennaPattern.data') == 40)),
                g('#antennaPattern.data') >= 1,
                g('#antennaPattern.data') <= 65535]),
    ('both', _tx(':BasicHaveQuickMP', ':BeamAntennaPattern'),
     lambda g: [isin(g('modulationType.radioSystem'), (2, 3, 4)), g('antennaPatternType') == 1]),
    ('write generic', _tx(':GenericRadio', '=None'), None),
    ('write intercom', _tx(':SimpleIntercomRadio', ':BeamAntennaPattern'), None),
])


def all_layouts():
    return [l for ls in L.values() for l in ls]


def layout(name):
    return L[name][0]


RECORD_MODULE = {'SimulationAddress', 'EntityIdentifier', 'EventIdentifier', 'EulerAngles', 'Vector3Float',
                 'WorldCoordinates', 'SpreadSpectrum', 'NetId', 'DEFireFlags', 'ModulationType',
                 'DirectedEnergyTargetEnergyDeposition', 'BeamAntennaPattern', 'BasicHaveQuickMP', 'CCTTSincgarsMP',
                 'GenericRadio', 'SimpleIntercomRadio', 'UnknownRadio', 'UnknownAntennaPattern',
                 'HighFidelityHAVEQUICKRadio', 'DirectedEnergyPrecisionAimpoint', 'DirectedEnergyAreaAimpoint',
                 'DirectedEnergyDamage'}


def min_size(lay):
    """least number of octets of an encoding"""
    n = 0
    for t in lay.toks:
        if t.kind in ('scalar', 'const', 'count', 'size'):
            n += SIZE[t.w]
        elif t.kind == 'bits':
            n += t.n
        elif t.kind == 'reserved':
            n += t.n
        elif t.kind == 'fixed':
            n += t.n * SIZE[t.w]
        elif t.kind == 'nested':
            n += min(min_size(l) for l in L[t.cls])
    return n


def find_class(name):
    """the live class of that name in /repo"""
    import importlib
    for m in ('opendis.dis7', 'opendis.record', 'opendis.record.radio', 'opendis.record.warfare',
              'opendis.record.common', 'opendis.record.warfare.enums'):
        c = getattr(importlib.import_module(m), name, None)
        if isinstance(c, type):
            return c
    return None


# what an object says about its own counts and lengths: attribute -> the list whose count field it is, or @record
# whose length it is, or size of the object itself
REPORTS = {
    'beamAntennaPatternCount': 'beamAntennaPatterns',
    'directedEnergyTargetEnergyDepositionCount': 'directedEnergyTargetEnergyDepositions',
    'numberOfFixedDatumIDs': 'fixedDatumIDs', 'numberOfVariableDatumIDs': 'variableDatumIDs',
    'numberOfIFFDataRecords': 'iffDataRecords', 'numberOfRecords': 'recordIDs',
    'numberOfFixedDatumRecords': 'fixedDatumRecords', 'numberOfVariableDatumRecords': 'variableDatumRecords',
    'numberOfAppearanceRecords': 'appearanceRecordList', 'numberOfStandardVariableRecords': 'standardVariables',
    'numberOfRecordSets': 'recordSets', 'numberOfTargetsInTrackJam': 'trackJamRecords',
    'numberOfBeams': 'beamRecords', 'numberOfVariableParameters': 'variableParameters',
    'numberOfSupplyTypes': 'supplies', 'numberOfSystems': 'systems', 'dataLength': 'data',
    'numberOfPropulsionSystems': 'propulsionSystemData', 'numberOfVectoringNozzleSystems': 'vectoringSystemData',
    'intercomParametersLength': 'intercomParameters', 'numberOfAggregateIDs': 'aggregateIDs',
    'numberOfEntityIDs': 'entityIDs', 'numberOfSilentAggregateSystems': 'silentAggregateSystems',
    'numberOfSilentEntitySystems': 'silentEntitySystems', 'numberOfPerimeterPoints': 'perimeterPoints',
    'numberOfMineTypes': 'mineTypes', 'numberOfMissingPdus': 'missingPduSequenceNumbers',
    'numberOfSegments': 'linearSegmentParameters', 'numberOfPoints': 'objectLocation',
    'numberOfDERecords': 'dERecords', 'damageDescriptionCount': 'damageDescriptions',
    'antennaPatternLength': '@antennaPattern', 'modulationParametersLength': '@modulationParameters',
    'variableTransmitterParameterCount': 'variableTransmitterParameters', 'recordLength': 'size',
}


def reports(lay, cls):
    """[(attribute, what it reports)] of the counts and lengths objects of cls give"""
    out = []
    for name, what in REPORTS.items():
        if not isinstance(getattr(cls, name, None), property):
            continue
        if what == 'size' and lay.sv is not None:
            out.append((name, None))
        elif what[0] == '@' and any(t.attr == what[1:] and t.kind in ('nested', 'none') for t in lay.toks):
            out.append((name, next((t for t in lay.toks if t.kind == 'nested' and t.attr == what[1:]), 0)))
        else:
            out += [(name, t) for t in lay.toks if t.kind == 'count' and t.lst == what]
    return out
