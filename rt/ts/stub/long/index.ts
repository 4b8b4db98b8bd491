// What generated TypeScript needs of the package long: 64 bit integers, signed unless told otherwise, that wrap around.
export default class Long {
    private readonly v: bigint

    private constructor(v: bigint, readonly unsigned: boolean) {
        this.v = unsigned ? BigInt.asUintN(64, v) : BigInt.asIntN(64, v)
    }

    static readonly ZERO = new Long(0n, false)
    static readonly UZERO = new Long(0n, true)

    static fromString(s: string, unsigned: boolean = false): Long {
        if (s.length === 0) {
            throw Error("empty string")
        }
        if (s === "NaN" || s === "Infinity" || s === "+Infinity" || s === "-Infinity") {
            return unsigned ? Long.UZERO : Long.ZERO
        }
        return new Long(BigInt(s), unsigned)
    }

    static fromNumber(n: number, unsigned: boolean = false): Long {
        return isNaN(n) ? (unsigned ? Long.UZERO : Long.ZERO) : new Long(BigInt(Math.trunc(n)), unsigned)
    }

    static fromValue(v: Long | string | number, unsigned?: boolean): Long {
        if (typeof v === "number") {
            return Long.fromNumber(v, unsigned)
        }
        if (typeof v === "string") {
            return Long.fromString(v, unsigned)
        }
        return new Long(v.v, unsigned === undefined ? v.unsigned : unsigned)
    }

    toString(): string {
        return this.v.toString()
    }

    equals(o: Long): boolean {
        return this.v === o.v
    }
}
