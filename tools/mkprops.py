import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'hook_needed':None}
    if state:a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if obs:a['observe_at']=obs
    assert len(title)<=80,title
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':qt},'why_tests_cant':why,'anchors':a})
D='opendis/dis7.py'
REC=['opendis/record/__init__.py','opendis/record/base.py','opendis/record/common.py','opendis/record/bitfield.py','opendis/record/radio/__init__.py','opendis/record/warfare/__init__.py']
ALL=[D,'opendis/stream.py']+REC
p('C01','Serialize then parse gives back an equal record or PDU',
 'For every PDU and record class of the package, writing an object whose fields hold values in their domains and reading the octets back into a newly constructed object of that class gives an object with the same field values, including variable-length lists, nested records and padding. Reading consumes exactly the octets that were written and raises nothing.',
 ['inputs'],'every PDU and record class; every assignment of in-domain values to its fields; every length of every list that its count field can express',
 'The tests build 6 of about 110 classes with one value each; a mistake in one field, one width, one sign or one element index of any class, or one that shows for one list length or one value range only, passes them.',
 ALL,[('serialize and parse methods of every class',D+' (class bodies)'),('stream primitives','opendis/stream.py'),('standard variable and radio records','opendis/record/*')],
 obs=['X.serialize(DataOutputStream)','X.parse(DataInputStream)'])
p('C02','Octets on the wire follow the IEEE 1278.1-2012 field layout',
 'For every PDU and record class, serialize writes the fields in the order, width, signedness and big-endian octet order of the DIS 7 layout of that record, with count and length fields holding the sizes of the lists they describe and padding octets where the layout has them, and parse assigns each field from exactly those octets.',
 ['inputs'],'every PDU and record class and variant; every in-domain value of every field; every list length',
 'Two swapped fields, a wrong width or a wrong sign in both serialize and parse is invisible to a round trip; the tests compare against recorded octets for five PDU types with one sample each.',
 ALL,[('serialize/parse of every class',D),('stream primitives write network byte order','opendis/stream.py')],
 obs=['octets written by serialize','field values after parse'])
p('C03','Parse then serialize reproduces the received octets',
 'For every PDU and record class, reading a well-formed encoding and writing the object that results yields the same octets, so a receiver can forward, log or replay traffic without altering it.',
 ['inputs'],'every PDU and record class; every well-formed encoding of it, with every list length and every variant of polymorphic records',
 'Tests re-serialize a handful of recorded packets; a field that is read but not written back, recomputed from something else, or normalised only for particular values survives them.',
 ALL,[('serialize/parse pairs',D),('records kept when their type is not recognised','opendis/record/__init__.py, opendis/record/radio/__init__.py')],
 obs=['octets before parse and after serialize'])
p('C04','The PDU factory decodes each packet with the class of its PDU type',
 'Given the octets of a packet, createPdu and createPduFromFilePath return an instance of the class that the packet\'s PDU type (third octet) designates in DIS 7, with the field values that class reads from the whole packet from its first octet, for every PDU type the package implements. For a packet whose PDU type octet is not an implemented type they return None and raise nothing.',
 ['inputs'],'every value of the PDU type octet, every well-formed packet of each registered type, with any octets following it',
 'The tests dispatch six PDU types with one packet each; a table entry that names the wrong class, or a rewind to the wrong position, for any of the other types is not executed.',
 ['opendis/PduFactory.py',D],[('PduTypeDecoders table','opendis/PduFactory.py:PduTypeDecoders'),('getPdu dispatch and rewind','opendis/PduFactory.py:getPdu'),('class-level pduType values',D)],
 obs=['createPdu(data)','createPduFromFilePath(path)'])
p('C05','Count and length fields and reported sizes equal what is written',
 'In the octets serialize writes, every count field equals the number of list elements that follow and every length field that describes a part of the record equals the size of that part in the units of that field. Where a record or PDU reports its own size (marshalledSize, recordLength) or the number or length of its parts (numberOf..., ...Count, ...Length), that is what serialize writes.',
 ['inputs'],'every class with a count, length or size; every list length and every element size, including variable-length and padded data',
 'Tests use one or two elements of one size; an off-by-one, a wrong unit (bits, octets, 64-bit words), a missed pad octet or a header left out shows for particular lengths only.',
 ALL,[('count fields written from len(list)',D),('marshalledSize','opendis/record/*'),('length in bits of variable datums',D+':VariableDatum')],
 obs=['octets written by serialize','marshalledSize()','numberOf..., ...Count and ...Length properties'])
p('C06','Values that do not fit their wire field are rejected, not truncated',
 'Serializing an object in which an integer field of fixed width holds an integer outside the range of that width, or a list is longer than its count field can express, raises an exception instead of writing octets that decode to something else.',
 ['inputs'],'every integer field and bit field of every class; every out-of-range integer; every list count field and every list length',
 'Only a value outside the range reveals a mask or wrap; no test uses one, and each of about 900 fields would need its own.',
 ALL,[('struct.pack range checks','opendis/stream.py:DataOutputStream'),('bit field setters','opendis/record/bitfield.py'),('EntityMarking length check',D)],
 obs=['X.serialize(DataOutputStream)'])
p('C07','A packet cut short is an error, never a half-read object',
 'For every PDU and record class, if the input ends before the last octet of the encoding then parse raises an exception; it never returns with fields filled from missing octets.',
 ['inputs','fault_sequences'],'every PDU and record class; every well-formed encoding; every proper prefix of it',
 'No test parses a truncated packet; a read that quietly returns fewer octets than asked for is caught only at the one cut position that exposes it.',
 ALL,[('fixed-size reads through struct.unpack','opendis/stream.py:DataInputStream'),('read_bytes checks the number of octets','opendis/stream.py:read_bytes')],
 obs=['X.parse(DataInputStream)'])
p('C08','Serializing has no side effects and instances do not share state',
 'Serializing an object leaves it and every object it refers to unchanged, and serializing it again, or serializing another object with equal field values, writes the same octets. Two objects built by the same constructor share no mutable state, so changing one never changes the other.',
 ['histories','inputs'],'every class; every in-domain field assignment; any number of objects and serializations',
 'A mutable default argument, class-level list, cached counter or appended padding shows only on the second object or second call; tests build and serialize one object each.',
 ALL,[('constructors copy or create nested records (argument or default)',D+' (__init__)'),('serialize reads fields only',D)],
 obs=['octets of repeated serialize calls','field values after serialize','attributes of two new instances'])
p('C09','Constructor arguments reach the fields they name',
 'For every PDU and record class, each constructor argument is stored in the field it names: after construction the attribute of that name equals the argument, and an argument that is left out gives that field its documented default, independent of every other argument.',
 ['inputs'],'every class, every constructor parameter, every in-domain argument value, every set of arguments given or left out',
 'Tests construct with keyword arguments for at most a few fields and never compare the others; a parameter assigned to a neighbouring field, ignored or overwritten by its default is not seen.',
 [D]+REC,[('__init__ of every class',D)],obs=['attributes after construction'])
p('C10','Parsing arbitrary octets terminates with work bounded by the input',
 'Whatever octets a packet contains, parsing them with any PDU or record class returns or raises: every loop driven by a count or length taken from the packet consumes octets in each iteration, so the work is bounded by a constant times the packet length.',
 ['inputs','fault_sequences'],'every PDU and record class; every finite octet string',
 'Hostile count and length values are unbounded in variety; the tests parse only valid packets.',
 ALL,[('loops over declared counts and lengths',D),('length checks of variable records','opendis/record/*')],
 obs=['X.parse(DataInputStream)'])
p('C11','Stream primitives are inverse and use the stated width and byte order',
 'Each write primitive of the output stream writes its value as exactly the stated number of octets, big-endian, with the stated signedness or IEEE format, rejects values that do not fit, and the read primitive of the same name returns the value and consumes exactly those octets. Reading fixed-width values or octet strings past the end of the stream raises an exception.',
 ['inputs'],'every primitive; every value; every stream content and position, including short ones',
 'Tests reach the primitives only through a few packets; sign, width or order mistakes of a primitive show only for values with particular bits set.',
 ['opendis/stream.py','opendis/types.py'],[('DataInputStream and DataOutputStream methods','opendis/stream.py')],obs=['DataInputStream.read_*','DataOutputStream.write_*'])
p('C12','Bit field records pack each field into its own bits and back',
 'A bit field record places each named field in its declared bits, in the declared order from the most significant bit of a big-endian word, without overlap; assigning one field never changes another; a value that does not fit its bits is rejected when the bit field is constructed from it or the record holding it is serialized; and parse(serialize(x)) returns the same value for every field of every bit field record, as does serialize(parse(octets)) for the octets.',
 ['inputs'],'every bit field definition the package makes; every combination of field values; every octet pattern',
 'Tests do not touch the bit field layer except through one transmitter packet; a wrong width or order changes only some combinations of values.',
 ['opendis/record/bitfield.py','opendis/record/common.py','opendis/record/radio/__init__.py','opendis/record/warfare/__init__.py','opendis/types.py'],[('bitfield() factory','opendis/record/bitfield.py'),('bit field classes','opendis/record/*')],obs=['bitfield classes: serialize, parse, attributes'])
p('C13','Variable records are dispatched by type and kept when not recognised',
 'A record whose type (or, for radio parameters, modulation or antenna pattern) is registered and whose declared length is that of its class is read by the class registered for it, reading exactly that length; one that is not registered is kept as an unknown record holding all its octets, consumes exactly its declared length and is written back unchanged, so that what follows it is read correctly. A declared length of a standard variable record that does not match the record is rejected, and so is one of an unregistered record that is not a multiple of 8 or does not cover its header.',
 ['inputs'],'every record type value and declared length; every record content; every number and order of records in a specification',
 'The set of record types is 2^32 with about ten registered; tests use none or one of them.',
 ['opendis/record/__init__.py','opendis/record/base.py','opendis/record/radio/__init__.py','opendis/record/warfare/__init__.py',D],[('getSVRClass/registry','opendis/record/__init__.py'),('UnknownStandardVariableRecord, UnknownRadio, UnknownAntennaPattern','opendis/record/base.py, opendis/record/radio/__init__.py'),('TransmitterPdu.parse',D)],obs=['records after parse','octets after serialize'])
p('C14','Entity marking text is stored and returned exactly',
 'For every ASCII text without NUL characters, setting an entity marking stores its first 11 characters, zero-filled to exactly 11 octets, and reading it back, before or after serializing and parsing it, returns exactly those characters; the character set, and every other marking, are left as they were.',
 ['inputs'],'every text and every content of the 11 octets',
 'One test sets one ASCII name; full-length, empty and over-long names, and markings that held another text before, are not tried.',
 [D],[('EntityMarking.setString/charactersString and serialize/parse',D+':EntityMarking')],obs=['EntityMarking API'])
p('D01','Dead reckoning models give their documented extrapolation formulas',
 'Each of the nine dead reckoning models returns the position and orientation of its documented formula: static does not move, world models add V*dt (and A*dt^2/2 for the accelerated ones), body models add the same displacement rotated from body to world by the initial orientation, fixed models keep the orientation, and rotating models add dt times the Euler angle rates of the body angular velocity (p, q, r): yaw rate = (q sin(phi) + r cos(phi))/cos(theta), pitch rate = q cos(phi) - r sin(phi), roll rate = p + (q sin(phi) + r cos(phi)) tan(theta). Where cos(theta) is zero the yaw is kept and roll advances by p*dt.',
 ['inputs'],'all nine models; all positions, velocities, accelerations, orientations, angular velocities and all dt, in exact real arithmetic',
 'Tests check a few points, mostly at zero orientation or along one axis, where a sign error, a transposed matrix or swapped axes cancel out.',
 ['opendis/DeadReckoning.py'],[('drm_static ... drm_fvb','opendis/DeadReckoning.py')],obs=['return values of the drm_ functions'])
p('D02','Rotation matrices are proper rotations built from the Euler angles',
 'For every orientation the body-to-world rotation matrix is orthogonal with determinant 1 and equals Rz(psi) Ry(theta) Rx(phi); the angular velocity matrix is the skew-symmetric matrix whose product with a vector v is the cross product of the angular velocity and v.',
 ['inputs'],'all real psi, theta, phi and all angular velocity vectors, in exact real arithmetic',
 'A test with a few angles cannot show orthogonality for all, and most single entry sign errors vanish at the axis-aligned angles used.',
 ['opendis/DeadReckoning.py'],[('get_rotation_matrix, get_angular_velocity_matrix','opendis/DeadReckoning.py')],obs=['returned matrices'])
p('D03','Dead reckoning leaves its inputs alone and is the identity at dt = 0',
 'No dead reckoning function modifies the arrays it is given or returns arrays that share storage with them in a way that lets later updates leak, and with dt = 0 each returns the position and orientation it was given.',
 ['inputs','histories'],'all nine models and all inputs; any sequence of calls',
 'In-place updates are visible only to a caller that reuses its arrays; the tests compare return values once.',
 ['opendis/DeadReckoning.py'],[('drm_static ... drm_fvb','opendis/DeadReckoning.py')],obs=['input arrays after a call, return values'])
C='opendis/RangeCoordinates.py'
p('G01','Geodetic to geocentric conversion follows the WGS84 ellipsoid',
 'Converting latitude, longitude and altitude to earth-centred coordinates gives (N+h)cos(lat)cos(lon), (N+h)cos(lat)sin(lon), (N(1-e^2)+h)sin(lat) with the WGS84 constants, for every latitude, longitude and altitude.',
 ['inputs'],'all real latitudes, longitudes and altitudes',
 'Tests convert a handful of places; an error in a term that is small or zero there (altitude, hemisphere, e^2) passes the tolerance.',
 [C],[('GPS.lla2ecef',C)],obs=['GPS.lla2ecef'])
p('G02','Geocentric to geodetic conversion is the inverse of geodetic to geocentric',
 'Converting a position to earth-centred coordinates and back returns the latitude, longitude and altitude it started from, to within a centimetre, anywhere from the deep earth surface layers to 50,000 km altitude, including poles, equator, the date line and all hemispheres.',
 ['inputs'],'all latitudes in [-90,90], longitudes in (-180,180], altitudes from -10 km to 50,000 km',
 'Singularities at poles, equator and meridians and slow convergence at some altitudes are measure-zero sets that sampled tests miss.',
 [C],[('GPS.ecef2lla',C),('GPS.lla2ecef',C)],obs=['GPS.ecef2lla(GPS.lla2ecef(p))'])
p('G03','Local north-east-down conversions are distance preserving and invert',
 'The conversion between earth-centred and local north-east-down coordinates at any origin is a rigid motion: it preserves distances, the two directions are inverse to each other, the origin maps to zero, north, east and down are the directions of increasing latitude, increasing longitude and the inward ellipsoid normal at the origin, and range, azimuth (from north towards east) and elevation (up from the horizontal) describe the same displacement.',
 ['inputs'],'all origins and all points, in exact real arithmetic',
 'A transposed or mis-signed matrix entry is invisible for points on an axis or origins on the equator or prime meridian.',
 [C],[('GPS.ecef2ned, GPS.ned2ecef, ned2pae',C)],obs=['GPS.ecef2ned, GPS.ned2ecef'])
p('G04','Entity orientation converts between local and earth-centred Euler angles',
 'Converting roll, pitch and yaw at a latitude, longitude and altitude to an earth-centred location and orientation, and back, returns the same location and the same attitude, for every attitude and place.',
 ['inputs'],'all attitudes, latitudes, longitudes and altitudes, apart from gimbal lock where only the attitude matrix is determined',
 'Tests convert one or two attitudes; sign and quadrant mistakes only show in other octants.',
 [C],[('GPS.llarpy2ecef, GPS.ecef2llarpy',C)],obs=['GPS.llarpy2ecef, GPS.ecef2llarpy'])
p('G05','UTM zone and band assignment follows the UTM grid',
 'Every latitude in [-80, 84] and every longitude in [-180, 180] gets the UTM zone number and latitude band of the grid definition, including the boundaries, the date line (180 is zone 1) and the Norway and Svalbard exceptions; easting, northing and scale factor are the transverse Mercator series of Snyder (1987) about the central meridian of that zone on WGS84, with scale 0.9996 and easting 500 km on the central meridian, and 10,000 km false northing exactly in the southern hemisphere; the altitude is passed through. ecef2utm gives the UTM coordinates of the geodetic position of its argument.',
 ['inputs'],'all latitudes in [-80,84] and longitudes in [-180,180]',
 'Zone edges and band letters are discontinuities; tests convert single interior points.',
 [C],[('GPS.lla2utm',C)],obs=['GPS.lla2utm'])
for x in P: pass
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
