// What generated TypeScript needs of the package decimal.js: exact decimals, written as it writes them.
export class Decimal {
    private readonly c: bigint      // the digits, with sign
    private readonly e: number      // how many of them are behind the point

    constructor(v: string | number | Decimal) {
        if (v instanceof Decimal) {
            this.c = v.c
            this.e = v.e
            return
        }
        const m = /^([-+]?)(\d+(?:\.\d*)?|\.\d+)(?:e([-+]?\d+))?$/i.exec(String(v))
        if (!m) {
            throw Error("[DecimalError] Invalid argument: " + v)
        }
        const [i, f] = (m[2] + ".").split(".")
        let c = BigInt(i + f)
        let e = f.length - (m[3] ? parseInt(m[3]) : 0)
        while (c !== 0n && c % 10n === 0n) {
            c /= 10n
            e--
        }
        if (c === 0n) {
            e = 0
        }
        this.c = m[1] === "-" ? -c : c
        this.e = e
    }

    cmp(o: string | number | Decimal): number {
        const b = new Decimal(o)
        const e = Math.max(this.e, b.e)
        const x = this.c * 10n ** BigInt(e - this.e), y = b.c * 10n ** BigInt(e - b.e)
        return x < y ? -1 : x > y ? 1 : 0
    }

    comparedTo(o: string | number | Decimal): number {
        return this.cmp(o)
    }

    lessThan(o: string | number | Decimal): boolean {
        return this.cmp(o) < 0
    }

    greaterThan(o: string | number | Decimal): boolean {
        return this.cmp(o) > 0
    }

    lessThanOrEqualTo(o: string | number | Decimal): boolean {
        return this.cmp(o) <= 0
    }

    greaterThanOrEqualTo(o: string | number | Decimal): boolean {
        return this.cmp(o) >= 0
    }

    equals(o: string | number | Decimal): boolean {
        return this.cmp(o) === 0
    }

    isInteger(): boolean {
        return this.e <= 0
    }

    toNumber(): number {
        return Number(this.toString())
    }

    // rounds half away from zero
    toFixed(n: number): string {
        const neg = this.c < 0n
        let c = neg ? -this.c : this.c
        let e = this.e
        if (e > n) {
            const by = 10n ** BigInt(e - n)
            c = c / by + (c % by * 2n >= by ? 1n : 0n)
        } else {
            c *= 10n ** BigInt(n - e)
        }
        const d = c.toString().padStart(n + 1, "0")
        return (neg ? "-" : "") + d.substring(0, d.length - n) + (n > 0 ? "." + d.substring(d.length - n) : "")
    }

    toString(): string {
        const neg = this.c < 0n
        const d = (neg ? -this.c : this.c).toString()
        const x = d.length - 1 - this.e     // the exponent
        let s: string
        if (this.c !== 0n && (x >= 21 || x <= -7)) {
            s = d[0] + (d.length > 1 ? "." + d.substring(1) : "") + "e" + (x < 0 ? "" : "+") + x
        } else if (this.e <= 0) {
            s = d + "0".repeat(-this.e)
        } else if (x >= 0) {
            s = d.substring(0, x + 1) + "." + d.substring(x + 1)
        } else {
            s = "0." + "0".repeat(-x - 1) + d
        }
        return neg ? "-" + s : s
    }
}
